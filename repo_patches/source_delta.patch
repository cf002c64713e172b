From af84921a9698cd868437164f00224c40e73cda77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 01/45] fix: replace generated files atomically

---
 gengokit/generator/gen.go | 55 +++++++++++++++++++++++++++++++++++----
 1 file changed, 50 insertions(+), 5 deletions(-)

diff --git a/gengokit/generator/gen.go b/gengokit/generator/gen.go
index e208fa0..ac6c084 100644
--- a/gengokit/generator/gen.go
+++ b/gengokit/generator/gen.go
@@ -3,6 +3,7 @@ package generator
 
 import (
 	"bytes"
+	"fmt"
 	"go/format"
 	"io"
 	"io/ioutil"
@@ -216,23 +217,67 @@ func formatCode(code []byte) []byte {
 	return formatted
 }
 
-// WriteGenFile writes a file at path to the filesystem
-func WriteGenFile(file io.Reader, path string) error {
-	err := os.MkdirAll(filepath.Dir(path), 0777)
+// WriteGenFile writes a file at path to the filesystem. The content is written
+// to a temporary file first, which then takes the place of path: whatever
+// happens meanwhile, path has either its previous or its complete new content.
+func WriteGenFile(file io.Reader, path string) (err error) {
+	err = os.MkdirAll(filepath.Dir(path), 0777)
 	if err != nil {
 		return err
 	}
 
-	outFile, err := os.Create(path)
+	// replace the file a symbolic link points to, not the link
+	mode := os.FileMode(0)
+	switch real, err := filepath.EvalSymlinks(path); {
+	case err == nil:
+		path = real
+		info, err := os.Stat(path)
+		if err != nil {
+			return errors.Wrapf(err, "cannot stat %v", path)
+		}
+		mode = info.Mode().Perm()
+	case !os.IsNotExist(err):
+		return errors.Wrapf(err, "cannot resolve %v", path)
+	}
+
+	outFile, err := createTemp(path)
 	if err != nil {
 		return errors.Wrapf(err, "cannot create file %v", path)
 	}
+	defer func() {
+		if err != nil {
+			os.Remove(outFile.Name())
+		}
+	}()
 
 	_, err = io.Copy(outFile, file)
+	if err == nil && mode != 0 {
+		err = outFile.Chmod(mode)
+	}
+	if err == nil {
+		err = outFile.Sync()
+	}
+	if cerr := outFile.Close(); err == nil {
+		err = cerr
+	}
 	if err != nil {
 		return errors.Wrapf(err, "cannot write to %v", path)
 	}
-	return outFile.Close()
+	return os.Rename(outFile.Name(), path)
+}
+
+// createTemp creates a new hidden file beside path, with the permissions a
+// new file gets.
+func createTemp(path string) (*os.File, error) {
+	dir, base := filepath.Split(path)
+	for i := 0; ; i++ {
+		name := filepath.Join(dir, fmt.Sprintf(".%s.%d-%d.tmp", base, os.Getpid(), i))
+		f, err := os.OpenFile(name, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)
+		if os.IsExist(err) && i < 10000 {
+			continue
+		}
+		return f, err
+	}
 }
 
 // responseInfo 输出代码生成信息
-- 
2.43.0


From a6f52a2bb29e87d85cdfc03297251ad0490f135b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:14 +0000
Subject: [PATCH 02/45] fix: an unreadable previous generation is an error, not
 a missing one

---
 cmd/baron/main.go | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/cmd/baron/main.go b/cmd/baron/main.go
index 77afc40..822ce6d 100644
--- a/cmd/baron/main.go
+++ b/cmd/baron/main.go
@@ -427,13 +427,19 @@ func cleanProtofilePath(rawPaths []string) ([]string, error) {
 
 // readPreviousGeneration returns a map[string]io.Reader representing the files in serviceDir
 func readPreviousGeneration(serviceDir string, svcName string) (map[string]io.Reader, error) {
-	if !fileExists(serviceDir) {
-		return nil, nil
+	if _, err := os.Stat(serviceDir); err != nil {
+		if os.IsNotExist(err) {
+			return nil, nil
+		}
+		return nil, errors.Wrapf(err, "cannot stat directory %v", serviceDir)
 	}
 
 	files := make(map[string]io.Reader)
 
 	addFileToFiles := func(path string, info os.FileInfo, err error) error {
+		if err != nil {
+			return err
+		}
 		if info.IsDir() {
 			switch info.Name() {
 			// Only files within the handlers dir are used to
@@ -477,15 +483,6 @@ func readPreviousGeneration(serviceDir string, svcName string) (map[string]io.Re
 	return files, nil
 }
 
-// fileExists checks if a file at the given path exists. Returns true if the
-// file exists, and false if the file does not exist.
-func fileExists(path string) bool {
-	if _, err := os.Stat(path); err == nil {
-		return true
-	}
-	return false
-}
-
 func cleanupOldFiles(servicePath, serviceName string) {
 	serverCLI := filepath.Join(servicePath, "svc/server/cli")
 	if _, err := os.Stat(serverCLI); err == nil {
-- 
2.43.0


From 178a0f9867402ce3978af3a2d24bed5ebe0e660d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:15 +0000
Subject: [PATCH 03/45] fix: FileExists: a file that cannot be examined is not
 missing

---
 pkg/file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/file.go b/pkg/file.go
index 013980b..329c8a5 100644
--- a/pkg/file.go
+++ b/pkg/file.go
@@ -6,7 +6,7 @@ import "os"
 func FileExists(path string) bool {
 	_, err := os.Stat(path)
 	if err != nil {
-		return os.IsExist(err)
+		return !os.IsNotExist(err)
 	}
 	return true
 }
-- 
2.43.0


From 998488ecc366627bdd802b6d0448c4ae3c72e46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:15 +0000
Subject: [PATCH 04/45] fix: fail when the service name cannot be found out

---
 cmd/baron/main.go                     | 5 ++++-
 internal/parsesvcname/parsesvcname.go | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/baron/main.go b/cmd/baron/main.go
index 822ce6d..ea6376e 100644
--- a/cmd/baron/main.go
+++ b/cmd/baron/main.go
@@ -209,10 +209,13 @@ func parseInput() (*config.Config, error) {
 	// Service Path
 	// 生成代码在临时目录, 获取服务名称
 	svcName, err := parsesvcname.FromPaths(cfg.GoPath, cfg.DefPaths)
-	if err != nil {
+	if err == parsesvcname.ErrNoService {
 		log.Warnf("No valid service is defined; exiting now: %v", err)
 		return nil, nil
 	}
+	if err != nil {
+		return nil, errors.Wrap(err, "cannot find the service name")
+	}
 
 	svcName = strings.ToLower(svcName)
 
diff --git a/internal/parsesvcname/parsesvcname.go b/internal/parsesvcname/parsesvcname.go
index 084f0f3..3a64717 100644
--- a/internal/parsesvcname/parsesvcname.go
+++ b/internal/parsesvcname/parsesvcname.go
@@ -13,6 +13,9 @@ import (
 	"github.com/teamlint/baron/svcdef"
 )
 
+// ErrNoService is returned for definition files which define no service.
+var ErrNoService = errors.New("no service defined")
+
 // FromPaths accepts the paths of protobuf definition files and returns the
 // name of the service in that protobuf definition file.
 func FromPaths(gopath []string, protoDefPaths []string) (string, error) {
@@ -67,7 +70,7 @@ func FromPaths(gopath []string, protoDefPaths []string) (string, error) {
 	}
 
 	if sd.Service == nil {
-		return "", errors.New("no service defined")
+		return "", ErrNoService
 	}
 
 	return sd.Service.Name, nil
-- 
2.43.0


From 7f1090cd9ec3b0b121f3d605273355a24c0d595c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:41 +0000
Subject: [PATCH 05/45] fix: svcparse: a read error is not the end of the
 definition

---
 svcdef/svcparse/lexer.go   | 5 +++++
 svcdef/svcparse/parser.go  | 4 ++++
 svcdef/svcparse/scanner.go | 9 +++++++--
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/svcdef/svcparse/lexer.go b/svcdef/svcparse/lexer.go
index ed2e383..d9e1e17 100644
--- a/svcdef/svcparse/lexer.go
+++ b/svcdef/svcparse/lexer.go
@@ -117,6 +117,11 @@ type SvcLexer struct {
 	lineNo int
 }
 
+// Err returns the error which ended the input early, if there was one.
+func (self *SvcLexer) Err() error {
+	return self.Scn.R.Err
+}
+
 func (self *SvcLexer) GetPosition() int {
 	return self.tkPos
 }
diff --git a/svcdef/svcparse/parser.go b/svcdef/svcparse/parser.go
index dd2922a..54aeb9c 100644
--- a/svcdef/svcparse/parser.go
+++ b/svcdef/svcparse/parser.go
@@ -164,6 +164,10 @@ type Field struct {
 // ParseService will parse a proto file and return the the struct
 // representation of that service.
 func ParseService(lex *SvcLexer) (*Service, error) {
+	if err := lex.Err(); err != nil {
+		// Not wrapped: this is never the end of a complete input.
+		return nil, fmt.Errorf("cannot read service definition: %v", err)
+	}
 	tk, val := lex.GetTokenIgnoreWhitespace()
 	if tk == EOF {
 		return nil, io.ErrUnexpectedEOF
diff --git a/svcdef/svcparse/scanner.go b/svcdef/svcparse/scanner.go
index 329a8f4..d46e49e 100644
--- a/svcdef/svcparse/scanner.go
+++ b/svcdef/svcparse/scanner.go
@@ -15,6 +15,8 @@ type RuneReader struct {
 	ContentLen int
 	RunePos    int
 	LineNo     int
+	// Err is the error which ended the input early, if there was one.
+	Err error
 }
 
 func (self *RuneReader) ReadRune() (rune, error) {
@@ -27,6 +29,8 @@ func (self *RuneReader) ReadRune() (rune, error) {
 			self.LineNo += 1
 		}
 		self.RunePos += 1
+	} else if self.Err != nil {
+		err = self.Err
 	} else {
 		err = io.EOF
 	}
@@ -47,13 +51,14 @@ func (self *RuneReader) UnreadRune() error {
 
 func NewRuneReader(r io.Reader) *RuneReader {
 	//contents := bytes.Runes(ioutil.ReadAll(r))
-	b, _ := ioutil.ReadAll(r)
+	b, err := ioutil.ReadAll(r)
 	contents := bytes.Runes(b)
 	return &RuneReader{
 		Contents:   contents,
 		ContentLen: len(contents),
 		RunePos:    0,
 		LineNo:     1,
+		Err:        err,
 	}
 }
 
@@ -274,7 +279,7 @@ func NewSvcScanner(r io.Reader) *SvcScanner {
 		}
 	}
 	return &SvcScanner{
-		R:            NewRuneReader(r),
+		R:            rr,
 		InDefinition: false,
 		InBody:       false,
 		BraceLevel:   0,
-- 
2.43.0


From 7bf701b93d04f152bcfdb094b91970cbfdf28815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:42 +0000
Subject: [PATCH 06/45] fix: svcparse: keep the scanner's state with its input

---
 svcdef/svcparse/scanner.go | 33 ++++++++++++++++-----------------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/svcdef/svcparse/scanner.go b/svcdef/svcparse/scanner.go
index d46e49e..354f9cc 100644
--- a/svcdef/svcparse/scanner.go
+++ b/svcdef/svcparse/scanner.go
@@ -17,6 +17,11 @@ type RuneReader struct {
 	LineNo     int
 	// Err is the error which ended the input early, if there was one.
 	Err error
+
+	// position within the service definition, see BuildScanUnit
+	withinBody bool
+	withinDef  bool
+	braceLev   int
 }
 
 func (self *RuneReader) ReadRune() (rune, error) {
@@ -90,12 +95,6 @@ func (self ScanUnit) String() string {
 	return fmt.Sprintf(`{"value": "%v", "InRpcDefinition": %v, "InRpcBody": %v, "BraceLevel": %v, "LineNo": %v},`, cleanval, self.InRpcDefinition, self.InRpcBody, self.BraceLevel, self.LineNo)
 }
 
-var (
-	withinBody bool = false
-	withinDef  bool = false
-	braceLev   int  = 0
-)
-
 func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 	rv := &ScanUnit{
 		false,
@@ -107,10 +106,10 @@ func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 	var ch rune
 	buf := make([]rune, 0)
 	setReturn := func() *ScanUnit {
-		rv.BraceLevel = braceLev
+		rv.BraceLevel = rr.braceLev
 		rv.LineNo = rr.LineNo
-		rv.InRpcBody = withinBody
-		rv.InRpcDefinition = withinDef
+		rv.InRpcBody = rr.withinBody
+		rv.InRpcDefinition = rr.withinDef
 		rv.Value = buf
 		return rv
 	}
@@ -221,22 +220,22 @@ func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 			} else if !isIdent(ch) {
 				rr.UnreadRune()
 				if string(buf) == "service" {
-					withinDef = true
+					rr.withinDef = true
 				}
 				break
 			}
 			buf = append(buf, ch)
 		}
 	case ch == '{':
-		braceLev += 1
-		if withinDef == true {
-			withinDef = false
-			withinBody = true
+		rr.braceLev += 1
+		if rr.withinDef == true {
+			rr.withinDef = false
+			rr.withinBody = true
 		}
 	case ch == '}':
-		braceLev -= 1
-		if withinBody == true && braceLev == 0 {
-			withinBody = false
+		rr.braceLev -= 1
+		if rr.withinBody == true && rr.braceLev == 0 {
+			rr.withinBody = false
 		}
 	}
 
-- 
2.43.0


From a31afbbf4ca12c47a6a06a39f0642b8243144854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:42 +0000
Subject: [PATCH 07/45] fix: svcparse: no panic on input which ends after a
 comment

---
 svcdef/svcparse/lexer.go   | 6 ++++--
 svcdef/svcparse/scanner.go | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/svcdef/svcparse/lexer.go b/svcdef/svcparse/lexer.go
index d9e1e17..9e30873 100644
--- a/svcdef/svcparse/lexer.go
+++ b/svcdef/svcparse/lexer.go
@@ -55,7 +55,8 @@ func NewTokenGroup(scn *SvcScanner) *TokenGroup {
 			one_pos := scn.UnitPos
 			one, err := scn.ReadUnit()
 			if err != nil {
-				panic(err)
+				// the input ends with this comment
+				break
 			}
 			onestr := string(one)
 			if len(one) > 1 && one[0] == '/' {
@@ -64,7 +65,8 @@ func NewTokenGroup(scn *SvcScanner) *TokenGroup {
 				if strings.Count(onestr, "\n") == 0 {
 					two, err := scn.ReadUnit()
 					if err != nil {
-						panic(err)
+						scn.UnReadToPosition(one_pos)
+						break
 					}
 					twostr := string(two)
 					if len(two) > 1 && two[0] == '/' {
diff --git a/svcdef/svcparse/scanner.go b/svcdef/svcparse/scanner.go
index 354f9cc..7cea228 100644
--- a/svcdef/svcparse/scanner.go
+++ b/svcdef/svcparse/scanner.go
@@ -344,6 +344,7 @@ func (self *SvcScanner) UnreadUnit() error {
 		self.InDefinition = false
 		self.BraceLevel = 0
 		self.lineNo = 0
+		return nil
 	}
 	self.UnitPos -= 1
 
-- 
2.43.0


From 9222f347089dbfcd07f101f3d8f9ba8e3daa67f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 08/45] fix: svcparse: find the end of comments such as /** **/

---
 svcdef/svcparse/scanner.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svcdef/svcparse/scanner.go b/svcdef/svcparse/scanner.go
index 7cea228..3f89fdc 100644
--- a/svcdef/svcparse/scanner.go
+++ b/svcdef/svcparse/scanner.go
@@ -157,6 +157,8 @@ func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 						buf = append(buf, ch)
 						return setReturn(), nil
 					}
+					// This rune may be the '*' of the closing '*/'
+					rr.UnreadRune()
 				} else {
 					// Add the body of the comment to the buffer
 					buf = append(buf, ch)
-- 
2.43.0


From ab7636bfbc5bf90a47672c4d560ff85df6ea3160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:15 +0000
Subject: [PATCH 09/45] fix: svcdef: a definition's oneofs do not outlive its
 New call

---
 svcdef/svcdef.go | 82 ++++++++++++++++++++++++++----------------------
 1 file changed, 44 insertions(+), 38 deletions(-)

diff --git a/svcdef/svcdef.go b/svcdef/svcdef.go
index 3fddfbc..b623420 100644
--- a/svcdef/svcdef.go
+++ b/svcdef/svcdef.go
@@ -199,13 +199,11 @@ func (le LocationError) Location() string {
 	return le.Position
 }
 
-var (
-	oneofs = map[string][]*Field{}
-)
-
 // New 解析 pb.go 和 go-grpc.pb.go 文件, 创建 Svcdef 服务定义相关信息和 HTTP 绑定相关信息
 func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef, error) {
 	rv := Svcdef{}
+	// The members of each oneof, by the name of its interface
+	oneofs := map[string][]*Field{}
 
 	for path, gofile := range goFiles {
 		fset := token.NewFileSet()
@@ -271,42 +269,40 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 		}
 
 		oneofTypes := map[string]string{}
-		// Find oneof types if they haven't been added already
-		if len(oneofs) == 0 {
-			for _, d := range fileAst.Decls {
-				switch decl := d.(type) {
-				case *ast.FuncDecl:
-					if _, ok := oneofExists[decl.Name.Name]; ok {
-						t := decl.Recv.List[0].Type.(*ast.StarExpr)
-						name := t.X.(*ast.Ident)
-						oneofTypes[name.Name] = decl.Name.Name
-					}
+		// Find oneof types
+		for _, d := range fileAst.Decls {
+			switch decl := d.(type) {
+			case *ast.FuncDecl:
+				if _, ok := oneofExists[decl.Name.Name]; ok {
+					t := decl.Recv.List[0].Type.(*ast.StarExpr)
+					name := t.X.(*ast.Ident)
+					oneofTypes[name.Name] = decl.Name.Name
 				}
 			}
+		}
 
-			// Process and group oneof types
-			for _, t := range typespecs {
-				switch t.Type.(type) {
-				case *ast.StructType:
-					// Non-exported structs do not represent types
-					if !t.Name.IsExported() {
-						break
-					}
-					// Skip all non-oneofs; will be processed later
-					iface, ok := oneofTypes[t.Name.Name]
-					if !ok {
-						break
-					}
-					nmsg, err := NewMessage(t)
-					if err != nil {
-						return nil, errors.Wrapf(err, "error parsing message %q", t.Name.Name)
-					}
-					f := nmsg.Fields[0]
-					f.Type.Message = &Message{
-						Name: nmsg.Name,
-					}
-					oneofs[iface] = append(oneofs[iface], f)
+		// Process and group oneof types
+		for _, t := range typespecs {
+			switch t.Type.(type) {
+			case *ast.StructType:
+				// Non-exported structs do not represent types
+				if !t.Name.IsExported() {
+					break
+				}
+				// Skip all non-oneofs; will be processed later
+				iface, ok := oneofTypes[t.Name.Name]
+				if !ok {
+					break
+				}
+				nmsg, err := newMessage(t, oneofs)
+				if err != nil {
+					return nil, errors.Wrapf(err, "error parsing message %q", t.Name.Name)
 				}
+				f := nmsg.Fields[0]
+				f.Type.Message = &Message{
+					Name: nmsg.Name,
+				}
+				oneofs[iface] = append(oneofs[iface], f)
 			}
 		}
 
@@ -329,7 +325,7 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 				if _, ok := oneofTypes[t.Name.Name]; ok {
 					break
 				}
-				nmsg, err := NewMessage(t)
+				nmsg, err := newMessage(t, oneofs)
 				if err != nil {
 					return nil, errors.Wrapf(err, "error parsing message %q", t.Name.Name)
 				}
@@ -355,6 +351,11 @@ func NewEnum(e *ast.TypeSpec) (*Enum, error) {
 // NewMessage returns a new Message struct derived from an *ast.TypeSpec with a
 // Type of *ast.StructType.
 func NewMessage(m *ast.TypeSpec) (*Message, error) {
+	return newMessage(m, nil)
+}
+
+// newMessage is NewMessage for a message which may have some of the oneofs.
+func newMessage(m *ast.TypeSpec, oneofs map[string][]*Field) (*Message, error) {
 	rv := &Message{
 		Name: m.Name.Name,
 	}
@@ -368,7 +369,7 @@ func NewMessage(m *ast.TypeSpec) (*Message, error) {
 		if !f.Names[0].IsExported() {
 			continue
 		}
-		nfield, err := NewField(f)
+		nfield, err := newField(f, oneofs)
 		if err != nil {
 			return nil, errors.Wrapf(err, "cannot create field %q while creating message %q", f.Names[0].Name, rv.Name)
 		}
@@ -529,6 +530,11 @@ func NewServiceMethod(m *ast.Field, info *DebugInfo) (*ServiceMethod, error) {
 // *ast.Field. If the provided *ast.Field does not match the conventions of
 // code generated by protoc-gen-go, an error will be returned.
 func NewField(f *ast.Field) (*Field, error) {
+	return newField(f, nil)
+}
+
+// newField is NewField for a field which may be one of the oneofs.
+func newField(f *ast.Field, oneofs map[string][]*Field) (*Field, error) {
 	// The following is an informational table of how the proto-to-go
 	// concepts map to the Types of an ast.Field. An arrow indicates "nested
 	// within". This is here as an implementors aid.
-- 
2.43.0


From 909166edaa42838c5710dc75c1ce8695d27e559a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:35 +0000
Subject: [PATCH 10/45] fix: generated code does not depend on map iteration
 order

---
 gengokit/service/services.go |  9 +++++++--
 svcdef/consolidate_http.go   |  6 +++---
 svcdef/svcdef.go             | 15 ++++++++++++++-
 3 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/gengokit/service/services.go b/gengokit/service/services.go
index bb5912a..7e3f3bb 100644
--- a/gengokit/service/services.go
+++ b/gengokit/service/services.go
@@ -97,8 +97,13 @@ func (h *handler) Render(alias string, data *gengokit.Data) (io.Reader, error) {
 		return h.buffer()
 	}
 
-	for k, v := range h.mMap {
-		log.WithField("Method", k).
+	// in the order of the definition
+	for _, m := range h.service.Methods {
+		v, ok := h.mMap[m.Name]
+		if !ok {
+			continue
+		}
+		log.WithField("Method", m.Name).
 			Info("Generating handler from rpc definition")
 		ex.Methods = append(ex.Methods, v)
 	}
diff --git a/svcdef/consolidate_http.go b/svcdef/consolidate_http.go
index 3697d00..b034453 100644
--- a/svcdef/consolidate_http.go
+++ b/svcdef/consolidate_http.go
@@ -36,15 +36,15 @@ func isEOF(err error) bool {
 // that that binding requires, where that parameter should be located, and the
 // type of each parameter.
 func consolidateHTTP(sd *Svcdef, protoFiles map[string]io.Reader) error {
-	for _, pfile := range protoFiles {
-		lex := svcparse.NewSvcLexer(pfile)
+	for _, path := range sortedPaths(protoFiles) {
+		lex := svcparse.NewSvcLexer(protoFiles[path])
 		protosvc, err := svcparse.ParseService(lex)
 		if err != nil {
 			if isOptionalError(err) {
 				log.Warnf("Parser found rpc method which lacks HTTP " +
 					"annotations; this is allowed, but will result in HTTP " +
 					"transport not being generated.")
-				return nil
+				continue
 			} else if isEOF(err) {
 				continue
 			}
diff --git a/svcdef/svcdef.go b/svcdef/svcdef.go
index b623420..d875d4f 100644
--- a/svcdef/svcdef.go
+++ b/svcdef/svcdef.go
@@ -23,6 +23,7 @@ import (
 	"go/token"
 	"io"
 	"reflect"
+	"sort"
 	"strings"
 
 	"github.com/kr/pretty"
@@ -205,7 +206,8 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 	// The members of each oneof, by the name of its interface
 	oneofs := map[string][]*Field{}
 
-	for path, gofile := range goFiles {
+	for _, path := range sortedPaths(goFiles) {
+		gofile := goFiles[path]
 		fset := token.NewFileSet()
 		// log.Printf("ast path = %v, gofile=%v", path, gofile)
 		fileAst, err := parser.ParseFile(fset, "", gofile, parser.ParseComments)
@@ -342,6 +344,17 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 	return &rv, nil
 }
 
+// sortedPaths returns the keys of files in a fixed order, so that results do not
+// depend on the iteration order of maps.
+func sortedPaths(files map[string]io.Reader) []string {
+	var rv []string
+	for path := range files {
+		rv = append(rv, path)
+	}
+	sort.Strings(rv)
+	return rv
+}
+
 func NewEnum(e *ast.TypeSpec) (*Enum, error) {
 	return &Enum{
 		Name: e.Name.Name,
-- 
2.43.0


From 62b606962eddf9d790198639372982c35d61b8d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 11/45] fix: --start: never overwrite a file, never leave a
 partial one

---
 internal/start/start.go | 43 +++++++++++++++++++++++++++++++++--------
 1 file changed, 35 insertions(+), 8 deletions(-)

diff --git a/internal/start/start.go b/internal/start/start.go
index fd0edee..c1c28b5 100644
--- a/internal/start/start.go
+++ b/internal/start/start.go
@@ -2,6 +2,7 @@ package start
 
 import (
 	"bytes"
+	"fmt"
 	"os"
 	"path/filepath"
 	"strings"
@@ -70,21 +71,15 @@ func Do(pkg string, outDir string) int {
 			return 1
 		}
 	}
-	f, err := os.Create(pinfo.FileName())
-	if err != nil {
-		log.Error(errors.Wrapf(err, "cannot create %q", pinfo.FileName()))
-		return 1
-	}
-
 	code, err := renderTemplate(pinfo.FileName(), startProto, pinfo)
 	if err != nil {
 		log.Error(err)
 		return 1
 	}
 
-	_, err = f.Write(code)
+	err = writeNewFile(pinfo.FileName(), code)
 	if err != nil {
-		log.Error(errors.Wrapf(err, "cannot write default contents to %q", pinfo.FileName()))
+		log.Error(errors.Wrapf(err, "cannot create %q", pinfo.FileName()))
 		return 1
 	}
 	nextStep, err := renderTemplate("nextStepMsg", nextStepMsg, pinfo)
@@ -96,6 +91,38 @@ func Do(pkg string, outDir string) int {
 	return 0
 }
 
+// writeNewFile creates a file which does not exist yet. The file appears under
+// its name only once it is complete.
+func writeNewFile(name string, content []byte) error {
+	tmp := ""
+	var f *os.File
+	for i := 0; ; i++ {
+		var err error
+		tmp = fmt.Sprintf("%s.%d-%d.tmp", name, os.Getpid(), i)
+		f, err = os.OpenFile(tmp, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0666)
+		if err == nil {
+			break
+		}
+		if !os.IsExist(err) || i == 10000 {
+			return err
+		}
+	}
+	defer os.Remove(tmp)
+
+	_, err := f.Write(content)
+	if err == nil {
+		err = f.Sync()
+	}
+	if cerr := f.Close(); err == nil {
+		err = cerr
+	}
+	if err != nil {
+		return err
+	}
+	// unlike a rename, this fails if there is a file by now
+	return os.Link(tmp, name)
+}
+
 // removeDotProtoSuffix exists to preempt and warn a user who enters a name
 // containing `.proto`. It will warn the user of their incorrect input and will
 // demonstrate how their input can be corrected. Then, the program continues
-- 
2.43.0


From b06426be87d66259947e35021c2d61438281d97c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 12/45] fix: parsesvcname: check the temporary files of
 FromReaders

---
 internal/parsesvcname/parsesvcname.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/parsesvcname/parsesvcname.go b/internal/parsesvcname/parsesvcname.go
index 3a64717..6bfe2a2 100644
--- a/internal/parsesvcname/parsesvcname.go
+++ b/internal/parsesvcname/parsesvcname.go
@@ -87,13 +87,17 @@ func FromReaders(gopath []string, protoDefReaders []io.Reader) (string, error) {
 	protoDefPaths := []string{}
 	for _, rdr := range protoDefReaders {
 		f, err := ioutil.TempFile(protoDir, "parsesvcname-fromreader")
+		if err != nil {
+			return "", errors.Wrap(err, "failed to create temporary protobuf file")
+		}
 		_, err = io.Copy(f, rdr)
+		if cerr := f.Close(); err == nil {
+			err = cerr
+		}
 		if err != nil {
 			return "", errors.Wrap(err, "couldn't copy contents of our proto file into the os.File: ")
 		}
-		path := f.Name()
-		f.Close()
-		protoDefPaths = append(protoDefPaths, path)
+		protoDefPaths = append(protoDefPaths, f.Name())
 	}
 	return FromPaths(gopath, protoDefPaths)
 }
-- 
2.43.0


From fc2e22bc7d030ee9bec0b856ae0fb6fc6d9ac34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:03 +0000
Subject: [PATCH 13/45] fix: httptransport: optional numbers and enums outside
 the body compile

---
 gengokit/httptransport/httptransport.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index bee4811..3cb8c6b 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -502,10 +502,18 @@ func createDecodeTypeConversion(f Field) string {
 	}
 	if f.IsEnum {
 		fType = f.GoType + "(%s)"
+		if f.StarExpr {
+			fType += ".Enum()"
+		}
 	}
 	// 如果字段是标量类型并且是指针类型
 	// log.Debugf("[createDecodeTypeConversion] field[%v].GoType=%v.IsBaseType=%v, filed.StarExpr=%v\n", f.Name, f.GoType, f.IsBaseType, f.StarExpr)
 	if f.IsBaseType && f.StarExpr {
+		switch f.GoType {
+		case "uint32", "int32", "float32":
+			// a conversion is not addressable
+			return fmt.Sprintf("proto."+strings.Title(f.GoType)+"("+fType+")", f.LocalName)
+		}
 		return fmt.Sprintf("&"+fType, f.LocalName)
 	}
 	return fmt.Sprintf(fType, f.LocalName)
-- 
2.43.0


From 19e0beb6d2620b6722798aa843f348ff18cd95a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:16 +0000
Subject: [PATCH 14/45] fix: an unset message or optional enum in the query
 string is left out

---
 .../template/NAME-service/baron/NAME.pb.baron.go.tmpl     | 7 +++++++
 gengokit/template/template.go                             | 8 ++++----
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index 04ac98c..2b5a4ba 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -647,12 +647,19 @@ func CtxValuesToSend(keys ...string) httptransport.ClientOption {
 					}
 					{{- end}}
 				{{else if or (not $field.IsBaseType) $field.Repeated}}
+					{{- /* an unset message or optional enum is not sent */ -}}
+					{{if and $field.StarExpr (not $field.Repeated)}}
+					if req.{{$field.CamelName}} != nil {
+					{{- end}}
 					tmp, err = json.Marshal(req.{{$field.CamelName}})
 					if err != nil {
 						return errors.Wrap(err, "failed to marshal req.{{$field.CamelName}}")
 					}
 					strval = string(tmp)
 					values.Add("{{$field.QueryParamName}}", strval)
+					{{if and $field.StarExpr (not $field.Repeated)}}
+					}
+					{{- end}}
 				{{else}}
 					{{/*如果是指针类型标量*/ -}}
 					{{if $field.StarExpr}}
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index e258ccf..cfced2b 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -1,6 +1,6 @@
 // Code generated by go-bindata. DO NOT EDIT.
 // sources:
-// NAME-service/baron/NAME.pb.baron.go.tmpl (26.964kB)
+// NAME-service/baron/NAME.pb.baron.go.tmpl (27.216kB)
 // NAME-service/cmd/NAME/main.go.tmpl (1.381kB)
 // NAME-service/cmd/NAME-client/main.go.tmpl (2.923kB)
 // NAME-service/server/endpoints.go.tmpl (230B)
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x5b\x8f\x1b\x39\x76\xf0\xb3\xf4\x2b\x38\x85\x99\xb1\xd4\x9f\xba\x34\x5f\x80\x04\x9b\x1e\x74\x00\x4f\xdb\x73\xd9\x1d\xdb\xbd\x76\x7b\x06\x88\x61\x78\x29\x15\x25\x71\xbb\xaa\x58\x26\x59\x7d\x59\xa5\x5f\xf2\xb2\x01\x12\x20\x40\x9e\xf2\x10\x2c\xf2\x94\xd7\x20\xcf\xf9\x3d\x3b\xc1\xfe\x8b\xe0\x9c\x43\xb2\x58\x52\x95\x2e\x9e\xd9\x60\x11\x64\x80\xc4\xea\x22\x79\x78\x78\x78\x78\xee\xe4\x4e\xa7\xec\x42\x65\x82\x2d\x45\x29\x34\xb7\x22\x63\xb3\x7b\x36\xe3\x5a\x95\x29\x7b\xf2\x82\x3d\x7f\x71\xc5\x9e\x3e\xf9\xe6\x2a\x1d\x4e\xa7\xec\xa5\xd0\x75\x59\xca\x72\x49\x1d\xd8\xad\xcc\x73\xa6\x6e\x84\xbe\xd5\xd2\x0a\x66\x57\xd2\xb0\x85\xcc\x05\x76\xfe\x4e\x68\x23\x55\x79\xc6\xd6\xeb\xd4\xfd\x7e\x78\x88\x1a\xd8\x13\x6e\x45\xdc\x0a\x7f\x3f\x3c\x0c\x87\x15\x9f\x5f\xf3\xa5\x80\x96\x4b\xfa\xf9\x9c\x17\xd8\x32\x9d\xb2\x2b\x3f\x07\x9b\xab\xd2\x72\x59\x1a\x56\x08\xbb\x52\x99\x61\x56\xb1\x82\x5f\x0b\x26\xcb\x4c\xde\xc8\xac\xe6\x39\x13\x65\x56\x29\x59\x5a\xc3\x16\x5a\x15\xcc\x08\x7d\x23\xe7\xc2\x4c\x00\x92\x16\xef\x6b\x61\x2c\xe3\x65\xc6\xb4\x30\x95\x2a\x8d\x60\xf6\xbe\x12\x08\x09\xba\xc2\x8a\x94\x11\x0d\x94\x09\xe3\x86\xdd\x8a\x3c\x87\x7f\x45\x39\x57\x99\xd0\x06\x00\x00\xbc\x4c\xb8\xbf\x17\x4a\xbb\x81\x08\x6d\x82\x1f\x38\x50\x6a\xc1\x54\xad\x99\xa9\xab\x4a\x69\xa0\xb4\xd5\xbc\x34\xf0\x1b\xa6\x93\x3c\x97\xbf\xe1\x56\xaa\x12\xa0\x2d\x94\x2e\xb8\x35\xe9\x70\x28\x0b\xec\x31\x1a\x0e\x92\xd9\xbd\x15\x26\x19\x0e\x12\x58\xbb\xb8\xb3\xf0\x13\xd1\x90\xe5\x72\xfa\x6b\xa3\x4a\xf8\xb0\x28\xf0\xbb\x54\xf4\xff\xa7\x52\xd5\x56\xe6\xf0\x47\x29\xec\x74\x65\x6d\xe5\x7f\xd7\x1a\x3f\x1b\xab\xe7\xaa\xbc\x71\x3f\x65\xb9\x34\xc9\x70\x38\x48\x96\xd2\xae\xea\x59\x3a\x57\xc5\x74\xa9\x4e\xaf\xa5\x9d\xc2\xff\x79\x5a\x24\xc3\x01\x2f\xef\xab\x19\x4b\x96\x4a\x2d\x73\x91\x2e\x55\xce\xcb\x65\xaa\xf4\x72\x5a\x69\x65\xd5\xac\x5e\x4c\x71\xfd\xd3\xeb\x52\xdd\x96\x53\xec\x9d\x0c\x07\x59\xad\x71\x91\x47\x0c\x6d\x86\x24\xc3\x81\x28\x2a\x7b\xcc\xbc\xae\x7f\x32\x1c\x2c\xa4\xc8\xb3\x82\x9b\xeb\x23\x46\x47\x63\x92\xe1\xc0\x58\x5d\xcf\xed\x11\xc3\xfd\x80\x64\x38\xb0\xb2\x10\xc6\xf2\xa2\x3a\x62\x78\x34\x26\x19\x0e\x6e\x35\xaf\x2a\xa1\xcd\x11\x00\x9a\x21\xdb\x5b\xaa\x65\x9e\xf3\x69\x51\xdf\x25\xed\x96\xea\x7a\x39\x15\x5a\x2b\x8d\x9c\xb6\x63\xa2\xc0\x79\xf8\xc5\xb3\xdf\x8e\x01\xf8\x03\x10\x59\xaf\x4f\x99\x5c\x30\xf1\x9e\xa5\x17\xaa\x5c\xc8\x65\x7a\x15\x4e\x42\xc2\xf3\x3c\x61\x49\xc9\xad\x49\xd8\xc3\x43\x1b\x37\xf8\x7a\x2a\x15\xfe\x9b\x2e\x81\xc3\x01\x94\x28\x33\xe8\x78\x00\xd4\xa5\xae\xe6\x1e\xea\x16\x9e\xd8\xd8\xdb\x32\x2d\x84\xe5\x19\xb7\x7c\x73\xd2\x83\xa7\x84\x5f\xcd\x89\xef\x39\x5f\xa1\x83\x47\x27\x9a\x0b\xce\xee\x11\x00\xdc\x51\x3f\x8a\xd8\xf0\xeb\x88\x29\x70\x60\x8c\xe3\x78\x38\x1c\xde\x70\x0d\xd2\xea\x1d\x3b\x67\x8b\xc2\xa6\xaf\x2a\x2d\x4b\x4b\x7f\xa3\x00\x4b\x2f\x54\x51\x71\x2d\xe8\x93\x93\x3e\xe9\x63\xab\x24\x7d\x69\x2d\x33\x7d\x2e\x6e\x5f\x81\x2c\xd6\xd4\x48\xd2\x2c\x7d\xae\xaa\x8b\x5c\x99\xe6\x6b\x7a\xa1\xaa\x7b\xfa\x83\x98\x37\xfd\x5e\xf3\x6a\x38\x98\x4e\x99\xdb\x4f\xcf\x86\x24\x95\xa1\x2b\x8a\xa4\xf4\x71\x89\xe3\x1a\x21\x93\x3e\x71\x3f\xe1\xb3\x13\x1f\xe9\x53\xf8\x17\x3e\xf8\x23\x9d\xbe\xc2\x1f\xf0\x29\x3a\xa6\xe9\x95\xff\x0d\x0d\xcd\xf1\x83\xde\xb2\x5c\x7e\xc7\xf3\x1a\xd7\x1d\xc9\x95\xf4\x4b\xf8\xfd\x8c\x9b\x6b\xa0\xde\xf4\xe4\xa0\xff\xd8\xd3\xa0\xd9\x0e\x1b\x00\xff\x4d\x51\x83\x7e\x53\x32\x4e\xea\x4d\x4f\x98\xb4\x8f\x0c\xab\x8d\x58\xd4\x39\xaa\xa9\x45\x5d\xce\x61\xe9\x86\xd9\x15\xb7\xac\x14\xa0\xa5\x14\x53\x15\xda\x06\x4c\xc1\xd8\x4a\xe8\x53\xaf\x06\x00\xe0\x8c\x1b\x69\x52\xf6\xa5\xd2\x4c\xdc\xf1\xa2\xca\xc5\x84\xdd\xab\x9a\x15\x72\xb9\xb2\xac\xe2\x06\x54\x64\x84\xb0\x55\x8c\x87\x89\x68\x9e\x4a\xab\xac\x9e\x0b\x03\xe0\x78\x89\x1c\x90\x7e\xcd\xcb\x2c\x07\x1c\x6f\xa5\x5d\x31\xc1\xe7\x2b\xa7\xe9\xd9\xc8\xcf\x3e\x66\xb7\x52\x8b\x8c\xd5\x15\x01\x35\x95\x98\xcb\x85\x9c\xb3\x8a\xdb\x55\xca\x46\xdf\x20\x7e\xd2\x00\xfc\x19\x9f\xe5\xf7\x8c\xb3\x42\x1a\x4b\x56\x02\xcb\x84\x91\xcb\x12\x86\xca\xf2\x46\x5d\x83\xba\x17\xec\x15\xd9\x08\xc1\xaa\x40\x14\x05\xc0\x69\x56\x40\x3c\x00\x20\x3c\x25\xd3\xf1\x70\x3a\x0d\xd4\x9d\xe7\x52\x94\xb6\x4d\x5d\xab\xd8\x5c\xe5\xb9\xc0\x71\xde\x40\xc9\xef\xc1\x8c\x21\x70\x22\x8b\xcc\x15\x59\xc2\x82\x00\xa0\x91\xe5\x32\x27\x53\x82\x68\x25\x81\xc2\x85\x40\x4a\x46\xf8\xca\xd2\x0a\xbd\xe0\x73\xd1\xb7\x13\x00\x2c\x4c\xd6\x6d\x24\xd5\x30\x19\x6b\x4b\x10\x38\x80\x17\x6e\x3d\x73\x55\xcc\x64\x89\x74\x2a\x1c\x8a\xd1\xc6\x4e\x9c\x29\x65\x6b\x5d\x32\x69\x61\xc5\x80\xe0\x9c\xe7\xb9\xd0\x60\x31\x71\x8f\x6c\x3a\xc4\xe5\x6c\x11\x74\x3d\x1c\xbc\x2e\xc3\xfa\x44\xb6\x5e\xa7\x7e\x04\x99\x80\x4e\x12\xac\xd7\x9a\x97\x4b\xc1\x3e\x96\xec\xec\x9c\x85\x3e\xcf\x68\xcb\x48\x2c\x7f\x2c\xdd\x18\x3f\x0b\x63\x2c\x2c\x35\xf5\x1f\x87\xeb\x35\x09\x2e\xb2\x2e\x03\x46\xfb\xa7\x00\x06\x66\xa3\x68\x11\x63\x16\x4d\x3a\x9a\xdb\x3b\xe6\xac\x34\x10\xbb\xf0\xef\x04\x18\xe6\x64\xbd\xfe\x4a\x41\x1f\xf6\xb1\x4c\x5f\x92\x09\x7a\x75\x5f\xf9\x05\x8e\xd9\x68\xa3\x07\x19\xa6\x51\x97\x09\x09\xb8\x31\x50\xcb\xdb\xad\xf8\x0d\x10\x15\x69\xc7\xca\x01\x19\x98\x7c\x3c\x1c\x80\x22\xd0\x9a\x7d\x74\xce\x4a\x99\x03\x84\x81\xdb\xaf\x52\xe6\x08\x64\x38\x78\x18\xfa\x6f\x1e\x7a\xba\x17\xa7\xf1\x04\x00\x0c\x1f\x02\x39\x81\x98\xcf\xe0\x98\xc5\x14\xc5\x83\xfc\xb1\x15\x48\xd1\x07\xe8\x7c\xca\x62\x2a\x7f\x6c\x45\x1f\xa1\x01\x56\xd7\xca\x0c\x10\x3d\x1a\x16\xb3\xc9\x78\x7b\xbb\x89\x66\xb8\x38\x00\xdb\xbd\x4b\xde\x31\x08\x27\x6a\x0d\xdb\x12\x5c\x84\xe8\x33\x91\xbd\xd9\x8e\x81\x16\xef\x61\x21\x0e\xc2\x16\xdd\xb6\x76\x7b\x38\x18\xdc\x84\xbd\x33\xe9\x06\x03\x21\x2a\xd0\x67\x7b\xd7\xb6\xb7\x0d\xf6\xcd\x7f\xbd\xa1\xed\x18\x3c\x0c\x89\xc8\xb4\x27\xf1\xde\x80\x72\x7c\x9c\xe7\x4f\xef\xe6\xa2\xb2\xa8\xa7\x0c\x89\xd8\x40\x29\xd4\x50\xe0\xb2\xb8\xb3\xd9\x1c\x56\xdc\x46\x94\x4d\x1d\x7e\x41\xfa\x4c\x66\x59\x2e\x6e\xb9\x26\x2f\xf0\xb5\xf1\x7e\x21\x38\x41\x55\x95\xdf\x83\x88\x01\xb1\x69\x01\x78\x11\x7a\xa3\x5e\x10\x37\x42\xdf\x87\x6d\x83\xf3\x02\x12\xc4\x78\xa9\x31\x9d\xb2\x17\x15\x68\x0d\x90\x9c\x93\x48\x70\xcd\x79\xc9\x66\x02\x75\x8d\xc8\x60\xd8\xec\x9e\x95\x40\x76\xab\xe0\xbb\xb8\x9b\xe7\x75\x26\x32\xf2\x02\x67\x02\x50\x20\xdd\x9c\xa5\x5b\xd4\x18\x35\x38\x4d\x58\xf2\xca\x72\x5b\x9b\x64\xc2\x92\x4b\x59\x2e\x93\x71\x38\xf7\x27\xd1\xc1\xef\x1b\xcf\x3a\xa8\x32\x69\xb0\x49\xd3\x94\x1c\x2e\x64\x1e\x59\xba\xcf\x67\xe7\xac\xe0\xd5\x1b\x6a\x7a\x4b\xe4\x5f\x3f\xc0\xae\x6f\x1e\x98\x2e\xc9\x37\x18\x24\x11\x1b\x25\x67\x6c\xfd\x30\x71\x43\x9d\x19\xf9\x30\x1c\x0e\x60\x37\xde\x01\x2a\xc8\xae\x08\x32\xa0\xb5\x26\x8e\x7b\x37\x61\xea\x1a\x9a\x3d\x62\x6f\xc4\xdd\xdb\xcf\xd9\x47\xea\x9a\x38\xb0\xe2\xa5\x9c\x8f\x1a\x0b\x6f\x31\x4a\x9e\x7a\x10\x61\x07\x1f\x7d\x62\x1e\xb1\x4c\x09\xc3\x4a\x65\x99\xb8\x93\xc6\x7e\xce\x8c\x10\xf1\xc6\x07\xde\x41\x93\x1e\x90\x1a\x8f\x1d\x3f\x67\x22\x17\x56\x8c\x3c\x06\xd8\xd6\x2c\x40\x96\xf3\x06\xfd\x40\xbe\xc3\x09\x25\x17\x08\xe2\xfc\x9c\xb5\x48\x46\xcb\x1b\x74\x8a\x52\x76\x1e\x61\x3e\xea\xec\x02\xb8\x23\xf2\x2d\x92\xd3\xb1\xfb\x96\xcf\x44\x2e\xb2\x86\x1b\x28\x84\xb2\x14\xd6\xf3\x2e\xf0\x7b\xa0\x1e\xb2\xf0\xed\x4a\x94\xa1\x55\x45\xec\xea\x80\x11\xd7\x4d\xe8\x94\xb9\x83\x50\x53\x67\x46\x71\x19\x4e\xc1\x1d\x39\x07\xa3\x46\xcb\x39\x9a\x59\x11\x97\xde\xae\xe4\x7c\x85\x43\x8d\x28\xbb\x50\x70\x9a\xdc\x8d\xf6\x76\x8c\xd2\x4e\x8f\x6f\xaf\x0a\x85\x2b\x31\xf0\x64\x5b\x0a\x77\x08\xe6\x61\xdf\xba\x3e\x58\x36\x6d\x21\x35\x71\xeb\x44\x8a\x6b\x31\x17\xf2\x86\x2c\x3e\x5c\xa2\x5a\xb4\xd6\x9d\xb2\x57\x42\x04\x30\x11\x14\x6c\xf0\x86\x68\x38\xf7\x80\x28\x70\x64\x26\x2c\x97\x39\x1a\x8d\xfe\x38\x61\x30\xc7\x19\xbb\x3c\x97\xf6\x3e\xdd\x25\x42\x5a\x6b\x8f\x25\xc9\xd1\x14\xfd\x3f\x39\xf3\xbf\x47\xce\xb4\x86\x4d\xba\x8d\xbc\x3e\xb1\x73\x78\x80\xe2\x50\xd7\xf3\xab\x97\x97\x17\x64\x61\x1d\xed\x7b\x82\x19\x17\x0d\x2f\xf8\xb5\x30\x8d\x31\xd0\xe8\x73\x7e\xc3\x65\xce\x67\xb9\x20\xb7\x61\xf9\xf2\xf2\x82\xf5\x38\x03\x69\x63\x20\x36\x90\x47\x0d\xa8\xc8\x3d\x51\x15\xb9\xb6\x69\x9a\xb6\x62\x31\x29\x0d\x22\xd3\x62\xdc\x37\x11\x6c\x97\x89\x3a\x1a\xd8\xf0\x37\x6f\xfb\x21\xc1\xf6\x76\xb5\x7e\x21\x16\x4a\x8b\x11\x60\xfb\xcc\xc5\x94\xae\x94\xb3\x3e\xc7\x13\x34\xc0\xdb\xf3\x9c\x83\xe1\x24\xca\x6c\xd4\xfa\x1c\xd6\x93\xa6\xe9\x18\x03\x1d\xeb\x35\xbb\x52\xdf\xaa\x5b\xa1\x59\x6b\x05\x18\xd9\x71\xa6\xe1\xa7\x80\x11\xe1\xb1\x06\x37\x69\x2f\xf7\xae\xd7\x1e\x66\x60\xb9\x33\xd6\x5e\x56\x08\xd1\x8c\x80\x07\x9b\x53\xd6\xc1\xa5\x20\x22\x06\x4f\x30\x52\x0e\xeb\x8f\x7a\x38\xeb\x18\x3b\x3c\x2d\x3b\x3b\x38\x5f\x07\x7a\xb4\x28\x91\xa6\x29\x7c\x04\xda\x75\xe8\xdc\x66\xc1\x9b\xae\x73\x30\xce\xbb\xf7\x3b\x18\xfa\xa4\xe5\x22\x38\x7f\x04\x77\x75\x8b\xc8\x8c\x6d\x50\xd9\xc5\x43\x22\x83\xde\xb9\x59\x2e\x50\x01\x92\x2a\xc2\xd1\xaa\x66\xb9\x87\xaf\xf4\x40\xb7\xd7\xb0\x93\x66\xaa\x31\x8b\xbd\x9c\x5d\xfe\x2f\xb8\x47\x3f\xad\x03\xfc\x0e\x80\x56\x2d\x17\x6a\x8b\x92\x74\xec\x80\x9b\x62\xa7\xea\x48\x4f\xb8\xfa\x40\x27\xd8\x51\x98\x58\x7e\x3f\x79\xa7\x53\xb6\xeb\x74\x30\x09\xe2\xb0\x1d\x23\x4e\x69\x80\xeb\xf1\x25\xec\x0f\xc6\x89\xe6\xaa\xbc\x11\x1a\x84\x29\x9e\x02\x12\xa1\xdb\x6c\xe6\xbd\x5d\x0c\xa0\xd5\x46\xe8\xd3\x4c\x15\x5c\x96\xbb\x3a\xa7\xec\x52\xcb\x82\x6b\x99\xdf\xfb\xf0\x56\x1c\x0b\x23\x26\xd9\xb5\x8e\xd1\xbb\x6d\xe6\x80\xb5\xbc\x14\xef\x37\xdc\xee\x4d\x6f\x3b\x04\x3e\xd0\xd1\x76\x63\x0e\x71\xb4\xc3\x4e\xbe\xdf\xb1\x4d\x24\x78\x0e\xda\xa6\x9d\x32\xaa\x73\x9f\x68\x84\xef\xd2\xb7\x51\xfb\xb7\xc0\xa7\x2a\x55\xa3\x19\xbb\xba\x55\xf9\xfd\x41\xfb\xb4\x73\x21\x5d\x1b\xd5\x15\x09\xd9\xb5\x53\xa6\xa2\x98\xc8\xc1\xc1\xa4\x56\x00\xaa\x6b\xb7\xbe\x16\x79\x25\xb4\x19\xd2\x02\x3a\x15\x69\xb7\x00\x2a\x32\xe6\xd3\x38\xe9\xb3\x27\xe3\xcd\x0e\x80\x2f\x88\xd1\xeb\x09\xbb\x69\x2c\xbe\x22\x98\xaa\x37\xad\x10\x0c\x66\xa3\x05\xbb\x16\xf7\xb8\xdd\x19\x18\x85\x33\x65\x57\x40\x63\x3f\x8b\xcb\xe3\xb2\xd1\xf5\xd8\xb9\x1f\xd0\x35\xcf\x59\x0e\xfb\xe5\xa0\x70\xe7\x74\x61\xb8\xf5\x82\x97\xaa\x94\x73\x9e\x7f\x2d\x78\x26\xf4\x2f\xc4\xbd\xf7\x4d\x60\x22\xa3\x5c\x10\xd8\x3a\x57\xcf\x83\x98\xcf\x85\x8f\x7d\x08\x69\x57\x42\xbb\x99\xa1\x1d\x48\x71\x1e\xd6\xfa\xbd\xb4\x2b\xcc\x43\x90\x34\x84\xb5\xbe\xf9\xec\xed\x78\x6f\xc7\x1e\xec\x46\xd7\xe3\x06\x82\xb3\xfa\xdd\xf6\xcd\xed\x1d\xea\xa8\x23\xec\x4a\x8a\x34\x1f\x6d\x57\x3e\x17\xb7\xd1\x68\x9a\x1e\xb3\x0e\x2e\x74\xc4\x66\x7c\x7e\x4d\xa5\x0d\xee\xcc\x50\x88\x1e\xd6\x5a\x0a\xf4\xcd\x52\xf6\x0d\x8a\x57\x17\xec\x77\xec\x2a\x67\x12\x7c\x36\xbf\x05\x2e\x96\x6d\x15\xcb\x24\xcf\x29\xe0\x9d\x73\x2b\x34\x9b\xe7\xca\x88\x09\x75\x6a\x60\x12\x83\xb6\xb0\x1b\x41\x33\xa9\xcf\x94\xbe\x5c\xa8\xb2\xdc\x61\x9c\x52\x27\x6f\x9c\x8e\x7a\x8c\x8c\xf8\xc8\x81\x85\xb0\x19\x6b\x1d\x44\x5f\xab\xeb\x25\x1e\x3f\x17\x72\x6d\x17\x59\x0c\xb6\xbd\x9a\xee\xb8\xec\xe0\x86\xeb\x2e\xd1\x13\x5c\x98\x6d\x27\x7f\xb0\xee\x36\x28\x23\xaf\x67\xcb\xb2\x74\x54\x43\xf6\x04\x42\x79\xcf\xd3\x2d\xe2\xe1\x21\xed\x8a\x00\x27\x93\x2d\x0f\x75\x97\x65\xd9\x98\x9e\x3d\x5a\x2b\x32\x3d\xf7\x48\x2f\x72\x83\x07\xaa\x6d\x9a\x06\x1a\x8c\xd0\xaf\x44\x30\xce\x4e\x6d\x7e\x05\x11\xe7\x0f\x50\xf0\x5d\xf6\x9a\xea\xec\xd4\x81\xda\xa2\xe9\x19\x63\x6c\xd7\x36\x4d\x9a\x79\x07\x0f\x5e\xd8\xc2\x09\x00\x1a\x30\x77\xa2\x7e\xbc\xf9\xb2\x43\x2f\x7a\xfb\x65\xb7\x5e\xdc\xad\xe9\x0e\x35\x5f\x9c\x0e\xea\xd1\x8b\x24\x14\x76\xdb\x2f\xfd\x7a\x91\x8c\x11\x40\xe6\x40\xc5\x08\x5d\x83\x11\x03\xea\xfa\x28\xd5\x58\xe5\xf7\x5d\xba\x31\xde\xb6\x1f\x6f\xce\xf4\x5b\x9d\xde\x9a\xd9\x69\x75\x1e\x68\x4f\xee\xb5\x65\x76\x5a\x9d\xad\x5d\xdb\xb5\x8e\x6e\x63\xa6\x2b\xd9\xb3\xdb\xea\x3c\x22\xbd\xb3\xdb\xea\x74\x58\xa0\x92\x35\x57\x2a\x36\x64\x88\xe6\x5d\x9a\x20\x22\x39\x2d\x79\x07\x94\xd1\xb5\xb8\x37\xec\xcd\x5b\x1f\xfe\xdb\x03\xef\xa0\xf4\x58\x91\xb1\x93\x7d\x46\x14\xea\x86\x8a\x4b\xdd\x4c\x3e\x1c\xf8\x60\xe0\x75\x63\x5a\x21\x7a\x6b\x17\x23\xbb\xf1\x81\xc0\xb9\xbd\x4b\xc9\xf0\xb8\x1e\xa7\x2e\xe8\x39\xfe\x9c\xf9\x80\xe0\x80\x00\x87\xa8\x08\xfe\x49\x86\x4c\x08\x82\x81\x10\x05\x98\xd4\x35\xb6\xda\x4e\x8a\x8c\x9d\x37\x56\xe0\xcf\x95\x2c\x47\x27\x45\x36\x69\x3e\x5d\xc2\x18\x82\x9a\xa6\xa9\x8b\x11\x36\xfe\x21\x58\x35\x2e\xb2\x46\x3b\x79\xa8\x7d\xf3\xf5\xd5\xd5\xe5\x87\xc4\xcd\x30\x69\x4f\x54\x2e\x91\xbd\xd8\x39\x4b\x78\x55\xe5\x72\x8e\x65\x2a\x58\xf9\xf7\x39\x9b\xaf\xb8\x36\xc2\x9e\xd7\x76\x71\xfa\xb3\x24\x84\xdb\x60\x56\x17\x3a\x68\x0c\x23\xb6\x72\x5f\xf0\xcc\xee\x0f\xc3\x01\x30\x55\xb2\x4a\x8b\x4c\x2c\x64\x29\x32\xac\xb0\x30\x51\xec\x2d\x9a\x66\x6f\xf0\xad\x5d\xe0\xd3\x0e\xbe\xc5\xa5\x1f\xde\x96\x91\x0b\x96\x22\x7c\x34\xfb\x5b\xd1\xa9\x8e\x80\x5c\x3f\x74\xdc\xff\xae\x66\x17\x91\xa3\x39\xc0\xae\x35\xad\x80\x5c\xf7\xa0\xa7\x20\x16\x48\xdc\xe8\x91\x88\xfe\xe8\x1f\xf2\x78\x61\x85\x1e\x6d\xb6\xd8\x8b\x66\x6b\x47\xd1\x36\x8f\x11\xd0\xf6\x2a\x0f\x0a\x07\xba\x28\x11\x86\xfe\x0a\x0c\xf5\xd7\x77\x60\x4e\xbd\x54\x35\xe0\x30\x1e\x46\x16\x85\xcb\x66\x80\x6e\xe8\x21\x73\xe8\x3a\x93\x65\x26\xcb\x25\x5a\x85\x34\x2c\xfd\x82\x3e\xb9\x58\x77\xe1\xc7\x61\xd0\xda\x75\x4f\xbf\x13\x7a\xc6\xfe\x86\x5d\xa9\xd7\x55\x25\xf4\xc3\x43\x32\x4e\x2f\xb9\x5d\xb5\xfa\xc0\x87\x2b\x51\x54\x39\x96\x01\x27\x63\xcf\x05\xa3\x9e\x7a\xb0\x11\x45\xcf\xe3\x68\xa3\xc3\xa8\x23\xe4\xe8\xec\x3a\x58\x5e\x34\x25\x66\x5b\xda\xf6\x9f\xb3\x10\xa1\xe3\x57\x94\x34\x6b\x19\x7f\x9d\x81\xc7\x01\xca\x88\x8d\x4a\x44\xf7\xd3\x09\x8d\xc2\x17\x98\x44\x7c\x42\xd9\x39\x0a\x45\x22\xff\xf8\x3c\x9b\x9f\xf1\x7b\x68\xd7\x13\xf0\x5a\x32\xb1\xe0\x75\x6e\x41\xdb\x11\x83\x00\x30\x0c\x4b\xaa\x05\xdb\x94\x05\x13\xc6\xd9\x4c\x65\xe8\xb5\xc0\xdf\x64\xf6\x83\xfb\x98\xe0\x3c\x49\xf0\x38\x6f\xb0\x1e\x6d\x3a\xa5\xf9\x53\xc4\x6e\x34\x26\xbf\x86\x33\x83\xb9\x6f\x06\xc8\x02\xa8\x3f\xff\xec\xb3\x94\x7d\xb3\x88\xf0\x8d\xe2\xa9\x74\x6e\x84\xc6\xd2\x6a\xe8\x51\x69\x75\x23\xc1\x25\x5e\xd1\x89\xa2\xbc\xdb\x4c\x10\xb6\x94\x9e\x84\x7e\x8d\x4d\x16\x83\xc6\xba\xad\x06\x3a\xac\x22\x7d\xc6\xb5\x59\x71\x2c\x09\xf3\xf8\x17\xf4\x09\x38\xd2\xd4\xf3\xb9\x10\x99\x21\x1f\xec\xe7\xaf\x5e\x3c\x77\x15\xda\x99\x2f\xa7\x0e\x39\x3e\xc4\xdd\xa3\x53\x1b\x91\xf5\x2f\x8b\xd2\xff\x17\xb0\x5d\x13\xef\x1a\x86\x95\x35\x8d\x2d\x68\x4c\x96\xc6\x0a\x9e\x79\x9a\x91\x90\x8c\x25\x44\x97\x21\x12\x2a\x49\x26\xec\x96\xa4\x60\x9b\x0d\xd0\x00\x81\x5d\x9d\xb0\x77\x70\xfc\x62\x92\x90\xf8\xf9\x9e\xaa\x0d\xd7\xb8\x8b\x67\x00\xcc\x6f\xe8\x03\xc5\x3b\x8b\x86\x80\xa4\x68\xa1\xcb\xa8\x4d\xdb\x46\xcf\x4a\x62\x9e\x2f\x70\x4a\x37\xf4\x29\x85\x59\x03\x20\x3f\x0e\xc8\x3d\x1a\x7f\x1e\x77\x3b\x8f\x74\x2e\x32\xe3\x79\x00\xe7\x03\x05\x83\xdb\x94\xd8\x66\x34\x06\x31\x38\x4a\x9c\x20\x3c\x05\xe9\x97\x4c\x62\x95\x47\x0b\x58\x79\x26\x8b\xf1\x6f\x8b\x07\xcf\x87\xcd\x3a\x30\xa0\xd3\x98\x1c\x1e\x86\xeb\x69\x46\x54\xb9\xb3\x89\xcb\xf5\xa4\xa3\x67\xfa\x15\xb4\x8c\x43\xa4\x63\x80\x47\xe3\x8c\x4a\x56\x53\x62\x87\x6f\xc0\x74\x2c\x79\x1e\x29\x09\xc4\xdd\xcc\x77\x60\x1d\xb1\x59\x83\x38\x02\x3f\x67\x66\x1e\x35\x3b\xf7\xf1\x36\x45\xa6\x70\x18\x43\xc7\x71\xf8\x38\x02\x6a\x8f\x41\xde\x34\x7c\x47\xd2\x4f\x8f\x66\xf5\x82\xbd\x79\x3b\xbb\xb7\x62\xec\x78\x7d\x4d\x7e\xfc\x2d\x8b\x59\x28\x44\xc7\x3d\x9f\xbd\x2e\xdd\xce\x02\x84\x09\xfb\xf4\x76\xfc\xf9\x66\xf4\x9c\xac\x14\x23\x7f\x03\x38\xff\xec\xff\xff\xe5\x5f\x10\x0b\xe5\xa2\x84\x31\x63\xf6\x57\xd4\x46\xfc\x50\x2f\xd8\x39\x9b\xd5\x8b\x37\x67\xf0\xf1\x6d\xbb\x7a\x69\x51\x58\x62\xdc\xc5\x28\x09\xb1\x46\x64\xa1\x47\x9f\x98\x47\x67\x6c\xce\xcb\x52\x59\x56\x81\xb9\xc3\x4a\x55\x9e\xa2\x8c\xf3\x86\x3c\x74\x4c\x26\x00\x7c\xdc\x0a\x46\xb9\xaa\xe0\xe7\xe2\x76\x74\x4b\xe0\x91\x46\x28\x43\xe3\xb5\x47\xc9\x1d\xec\xc5\xc8\xfe\x64\xbf\x82\x59\xce\x9c\x00\xfd\x95\x13\xe7\xb0\x8b\xae\x17\xb7\xd2\x2c\xa4\x13\xe7\x9e\x0b\x51\x50\x45\x9b\xdb\xb8\x19\x86\x49\xbc\xe7\xe1\x2f\xbb\x1c\x52\xcc\xed\xca\x2d\xa2\x49\x03\xaa\x24\x34\x07\xa6\x91\x48\x18\x6f\xf1\xb2\x97\xb1\x38\xd5\x1f\x4c\x72\xcf\x23\xa3\x55\x03\x74\xcc\x62\x6e\x63\xed\xa2\xb9\x55\xda\xcc\xd0\x33\xba\x39\x56\x64\xca\xe1\x9f\x2d\x10\x0e\xa9\xe1\xce\x04\xc9\x5e\x9b\x24\x0a\x52\xed\x31\x4a\x42\x50\x62\xa7\xf6\xdf\x74\x72\x11\xfb\xee\xd4\x0a\x82\xa4\xeb\x3e\x30\x06\x84\xdf\xa9\xd3\x35\xb1\xff\xda\x18\x36\x1a\xfc\xd3\x0d\x97\x17\x4b\xd1\x90\x57\xae\xae\x2e\xfd\x57\x84\x0c\x1c\xbc\x2f\x72\x3f\x88\x42\x14\x3b\x97\xd5\xe9\xf3\xb2\x13\xa7\x60\xb0\x4b\xbf\xbf\x3b\xc8\xc4\x02\xdc\x86\x14\xa4\x76\x8a\x05\xf7\xa3\xb1\xf3\xee\xc0\x17\x6e\xdc\xdf\x8d\xb5\x46\xbe\x30\x9a\x85\x28\x35\x9c\x40\x71\x15\xfc\x2f\x05\xcf\x1e\xe7\xf9\x88\x80\x1f\x56\xe5\xe8\xcb\xfa\x17\xa0\xf0\x26\x2c\x71\x92\x40\x83\xb2\xf5\x06\x0f\xac\xcc\x93\x33\xf1\xf5\x1d\x6d\x41\xf4\x19\x01\xaf\xbd\x50\x03\x57\xe3\xec\x9c\x85\x6b\x2c\x8d\xb8\x73\x76\x1e\xb9\x9d\x8f\xf3\x5c\xdd\x5e\x72\x6d\x25\xcf\xcf\x18\x63\x56\xd7\xce\x28\x7c\x22\xcd\x9c\xeb\xec\x75\x89\xb7\x6e\xce\x9a\x16\x5f\xfe\x01\xeb\x3a\x67\xf1\x84\x5b\x22\x55\x8b\xf7\xdb\x42\xb5\x5b\xac\xf6\x0b\xd6\x4e\xd1\xea\xd0\x68\x11\x33\x1c\xd8\x75\x07\x59\x63\x51\x7a\xac\xcc\x25\x82\x0c\x22\x85\xf8\x05\xcf\x5a\x06\xf6\x00\x10\x68\xd0\x0a\xde\x3a\x78\x94\x97\x5c\xf3\xc2\x78\x77\xe5\x3b\xae\xcd\x48\xc3\x1e\xbe\x63\xe7\xac\x69\x87\xde\xef\x6b\xa1\xef\x9b\xee\x3a\x7d\xfd\xf2\xdb\xf4\x97\xf0\x71\xe4\x07\x44\x5d\x86\xb1\x0f\x43\xd5\x63\x20\x2c\x3c\xd7\xe2\x0d\x0c\xe3\x83\xdf\x72\xc1\x4a\xdf\x2d\xfd\x56\x91\x61\xcd\x12\x5c\x24\xf5\x19\xac\xd7\xae\xf9\x2b\x51\xe2\xa4\x61\x37\xc1\xbb\xe9\x0e\xef\xee\x46\xe1\x45\x29\xd4\x62\x0b\x0f\xf1\x7e\x1b\x0f\x5c\xd6\x8f\x41\x24\x70\xc2\xa7\x18\x96\xf2\xa9\x6e\xef\x31\x9e\x6e\x94\x0a\xf7\x3a\x44\x9d\x12\xb3\x2f\xc9\x49\xf2\xd1\x78\xef\x20\xe8\x75\x6e\xc8\x56\xdf\xf0\x06\xc8\x37\xd2\x47\x24\x30\x3b\x10\xec\x92\x7d\x9d\xb6\x75\x5f\x4e\x33\x98\x48\x7d\x82\xe2\xd9\x96\x98\xd8\x14\x12\x41\x16\xbc\x36\xe2\x12\xc6\x81\xbc\x34\x67\xed\x86\xa7\x65\x5d\x3c\xaf\x8b\x99\xd0\xd0\xe2\x1b\x9e\x16\xd2\xbe\x2e\x2b\x55\xd5\xe0\x12\x67\x41\xac\x3c\x0c\x5b\xf2\x34\x92\x29\xde\x1d\x68\x72\xad\x88\x6a\xfa\x4c\x18\xc3\x97\x62\xbc\xab\xec\xc1\xb3\xc1\xbb\x89\x93\x56\xc1\x9c\x44\x4b\x2a\xea\x15\xe7\x60\x9b\x0b\x43\xce\x18\xe8\x8a\xa1\xf4\x14\x83\x6c\x6a\xa1\xbe\x64\x6c\x63\xbb\xeb\xc8\x9c\xd8\x99\x7e\x45\x25\xb0\x95\x7a\x5d\x71\xc3\x56\x3c\xa3\xb1\x7d\xc9\x56\x4c\xf1\x65\x4c\xe1\x15\x16\x59\x46\x77\x74\xa3\xbb\xbf\xe0\x09\x22\x14\x77\x61\x36\xf5\x4a\x3f\xe4\x78\x81\x99\x97\xba\x9a\x6f\x65\x82\x5b\xc9\x5c\x02\xd2\xce\xe8\xee\xcc\xe5\xee\x4b\xe5\x7a\x0a\x45\x9e\xca\xce\x21\x1b\xf8\x63\x32\x77\x1b\x06\x08\x2f\x20\x77\x5d\x8a\xe6\x8e\xd5\x7c\x05\x7b\x92\x62\x0b\xcf\x8d\x82\x2d\x70\x67\x98\xb4\x42\xad\xf3\xe1\xee\xd9\xbd\xa6\x39\xad\x75\x9e\x4c\x9c\x10\xbf\xe4\x76\x35\xde\x37\x30\xec\x4a\x32\x61\x09\xf0\x1c\x08\x91\x64\xfc\xc1\xb9\x67\x00\xf1\xe1\xb9\xe7\x68\x74\x13\x62\xed\x48\x3d\x97\x64\xec\x91\xf4\x62\xb9\xbc\xc1\xbb\x10\xd6\x51\xad\x50\x16\xe3\x0b\xb2\x34\x96\x97\x73\x91\xb2\xef\x05\x13\x77\x15\x5d\x19\xa3\x6f\x74\x8d\xac\x10\x64\x3e\x36\x93\x64\xd2\xcc\x15\x5e\x9e\x30\xf7\xc6\x8a\x62\x02\xcc\x35\x9d\xb2\x5c\x5e\x8b\x3c\xa4\xaf\x31\x0a\x92\xac\x94\xb1\x67\x48\xbb\x26\x3f\xdd\xac\x60\x14\xa6\xf2\xd5\xc6\xbd\x91\xdb\xe3\x33\xd3\x72\xc1\x3e\xf2\x2c\xf7\x35\x37\x97\x5a\x2c\xe4\x5d\x98\x71\xc2\x12\xbc\xb3\x4a\xb6\x67\xc0\xe3\x9c\x3e\x9f\x4d\xa7\x09\xfb\x7f\x81\x12\x28\xac\xea\x20\x05\x6b\x9d\x83\xf1\x69\x44\x80\x76\x70\x8d\x17\xd8\x0a\xf5\xd0\x5d\xe5\x05\x2b\xa7\xc3\xe3\x70\xf9\x55\xaa\x45\x4e\x9e\x2b\xda\xc8\x28\xbc\x4d\xd5\xf7\xc4\x03\x18\x0c\x02\x40\xb7\x4a\x5f\x4f\x18\x85\xcc\x99\xd3\xf4\xe0\xf8\xb1\x7b\x55\x6b\x52\x23\xd4\x2a\x81\x84\xc9\x38\x8e\x1c\x1e\x19\x9f\x65\x72\xb1\xe5\xfc\x38\xa4\xa1\x95\x12\xff\x91\xa3\x24\xcb\x4c\xdc\x6d\x8f\xf8\xcc\x8f\x71\xd9\xfd\x4d\xaf\x62\x57\x72\x1f\x66\x22\x0b\x6f\xc7\xb8\x8e\xeb\xbd\x51\x86\xdf\xe5\xec\x7b\xc3\xc6\xce\x82\x1c\xcc\x55\x75\xff\xfa\xe5\xb7\xa3\x7a\xc2\xe2\xfe\x5f\x70\x23\x40\x7c\x3c\x3c\x24\xde\x10\x8d\xe2\xb9\x7b\x02\xbf\x1b\x31\xe2\x56\x2c\xb9\x1d\x03\xde\xcc\xee\x0f\x36\x13\xfc\xde\xb6\x8d\xe2\xc0\xdd\xe1\xe1\xdd\x99\xfe\x9d\xfb\x1e\x32\xfe\x3f\xf9\xce\xf7\x05\xd2\x5d\x25\x41\xdf\xd6\x4e\x36\xad\xcd\xae\x70\x78\x53\x61\x80\x92\xc7\xef\xe3\x8c\x1b\xc1\x4e\xe0\x0c\xbf\x7e\xf9\xed\x04\x4d\x7d\xe6\x73\x96\xfe\x33\x9c\xdf\x12\xec\x82\xb3\x73\x76\x02\x03\xe8\x4f\xd4\x17\xce\x3d\x68\xaa\x9c\xa1\xc5\x19\x2a\x17\xf6\xce\xa7\x46\x5f\x81\x7d\x3b\xc7\x3a\xf8\x5a\xbb\x50\x0d\x9a\x0a\xee\xe0\x5a\xc5\xaa\x3a\xcf\xe9\xd2\x19\xe9\x39\x91\x51\x92\x52\xd5\xa0\xba\xbd\xf9\xea\xd4\x12\xc5\xc9\x49\xed\x15\xde\x84\x8d\x1d\x50\xb0\x15\x5c\xb8\x23\x65\xec\xb9\xb2\xee\x0e\x2f\x80\x04\x58\x28\x29\x56\xfc\x46\x30\xff\x36\xc7\x6e\x93\x04\xe7\x99\x61\xb6\xca\x5d\x63\xc3\x1b\x3b\x20\xf9\x3d\x6a\xb7\x52\x0b\x17\x1f\xe7\xbe\xa0\x89\x04\xbf\x5d\x89\xfb\x26\x0a\x1f\x2a\xec\xa3\x4b\x76\x42\x07\x85\xeb\x52\xcb\x6d\xda\x51\x3a\x39\xba\x4e\xd2\xaf\x0f\xe2\x88\x4f\x47\x27\x97\x71\xdb\x71\x09\xf3\x00\xeb\xf0\x27\x4b\x28\x07\x8b\xc7\x45\x7e\xe3\x3c\xf2\x46\xde\x17\x83\x86\x68\xff\x82\x02\xe8\x29\x8f\xd9\x2b\xb0\x37\x43\x52\x9d\xc2\x66\x67\x44\x6a\xd3\xbf\x72\xe1\x28\xb2\xc6\x36\x43\x52\x3e\x4a\xe3\xa6\x89\x0b\x4b\xe2\x8a\xd2\xcd\x90\x54\x14\x7a\x25\x33\xcf\x65\x49\x42\xcb\x0a\x6f\x67\x94\xaa\x3c\xfd\xb3\xcf\x3e\x8b\xd3\x45\x13\x76\xeb\x72\x22\xe8\x4f\x55\x5a\x58\x42\x13\x06\x94\x08\x8b\x7c\x2b\x3c\x40\xd6\x8a\xa2\xc2\xd3\x47\xab\x88\xcf\x9f\x0b\x60\xb3\x82\x5c\x98\x06\x47\x8f\xc4\xde\x90\x99\x2f\x0f\xe9\x08\x99\x75\x92\x7d\x77\xc4\x8c\xfa\x1c\x1f\x32\x3b\x26\x02\x76\x8e\x0f\x5a\x3c\x7d\xf1\x65\x6f\x10\xec\xb9\xb8\x8d\x62\xe3\x28\x71\x30\x58\x83\xaf\x55\xc4\x51\xaf\x03\x03\x6a\x1d\xf1\xb4\x00\x34\x19\x47\xf5\x14\x3a\xca\x45\x00\xe0\x28\xce\xf3\xe2\x17\xfb\x63\x76\xad\x4c\xc4\x78\xc2\x92\x88\x67\xce\xd8\xa3\x4f\xb2\x47\xe8\x06\x34\x73\x84\xb9\x29\xe4\x68\xaa\x7d\xdc\x3c\x3c\x3a\xae\xd7\x1b\xd6\xeb\x8b\xea\x45\xa4\xdd\x1b\xd3\x33\x55\x47\x50\x6f\x8b\x42\x31\x51\x36\xaa\x4d\x3e\x6d\x6a\xa0\x07\x1b\x45\xd0\x91\x00\xda\x2c\xf4\x3a\x20\x7a\xbe\x3f\x76\x4e\x06\x41\x2b\x02\x74\x5c\xf4\x7c\xab\x44\x6c\x18\xbc\x5d\x17\x0e\x62\xfc\xf0\x80\x39\xbe\x37\x41\x49\x6b\x2d\x55\x6d\x18\x4c\x84\x8e\x89\x5a\x38\xc0\x1b\xca\x77\x04\x36\xc1\x84\xe2\x80\x94\x33\xc6\xd4\x98\x17\x05\x07\x2c\xeb\x80\xe8\x79\x4f\x09\x59\x08\x1d\x0d\x8c\xd5\x37\x3c\x07\x02\x27\x89\x8b\x4c\xd2\xa7\xdd\xef\x05\xec\x8a\xa8\xfb\x08\xa7\x16\xef\x91\x55\x62\xf5\xd5\xeb\x1a\x6f\xf6\xeb\xf7\xbd\x29\x2a\xf1\x4a\x90\x63\x8a\xc6\x58\xc5\x35\x2f\x84\x15\xda\xb8\x48\x2d\xde\xb6\x71\x9e\x1c\xd6\x50\xf9\xa4\xd2\xc6\xb5\x48\x43\x95\xd0\xad\x58\x27\xcc\xf2\x8a\xbe\x87\x60\xa7\xef\xf8\xb0\x79\x8b\x14\x4c\xc6\x64\x8a\xf8\x77\x79\x7b\x15\x45\x0b\x76\xc8\xba\xae\xbc\x81\xaa\xf3\xac\x7c\x64\x9b\xd3\x4b\xab\xfc\xe4\x7d\x42\xc6\xa7\x97\xa0\x44\x95\x97\xfc\xd6\x19\x99\xb5\xff\x1d\xda\x42\x03\x7e\x6d\x53\x0e\x19\xaf\x4d\x3a\x2c\xb8\xe8\x8c\x58\x83\x80\xb3\x45\xe5\xd2\xb3\x6e\x83\x6d\x51\xb5\xc9\xd9\x17\xbb\x66\x4d\xe5\xf6\x61\x61\x63\xb9\xc0\x03\xe1\xba\xbd\x14\x95\xc0\xb7\xff\xdc\xdf\xdf\x18\x70\xa5\x82\x44\x6d\x20\x8f\x2e\xfc\xab\x7b\x3e\xee\xac\xb0\x22\x2d\xf1\xdb\x9f\x8c\xfd\x08\x5a\xea\x9b\x24\x84\xa8\x7f\x19\xe2\xf1\xae\x22\xfb\x2d\xb1\x70\x1a\x7a\x5c\xf0\x42\xe4\x4d\x1d\xba\xe3\x83\xdc\x84\xbf\x9d\xc1\x17\x5d\xce\xe8\x1b\xef\xf3\x21\x0e\x8d\xf4\x71\x96\x8d\x76\xa0\x32\x89\x9e\xaa\x1a\xdd\x8c\xc9\x87\x1b\xc4\x58\x38\x6e\x44\x17\x27\x07\xe3\x6c\xc1\x94\x66\x23\xd0\x97\x5b\x44\x1b\x6f\xd2\xd5\xe3\x6f\x8b\xca\x87\x57\x5b\xf5\x1b\x7d\xab\x70\x78\x74\x30\x77\x27\x7f\x3b\xf6\x5e\x70\x99\x53\x81\x8d\xe7\xee\x3e\xf8\x49\x7b\xa1\x4e\x54\xf9\x93\x3d\xb2\x45\x35\x1e\x1e\x45\x45\x82\x30\x8e\x08\xd5\x6c\xe5\xf4\xe4\xf7\xff\xf6\xb7\x3f\xfc\xee\x5f\x7e\xf8\xe7\x7f\xff\xe1\x1f\x7e\xfb\x87\x7f\xfa\xbb\xff\xfa\x8f\xff\xfc\xfd\xef\xfe\xfe\x87\x7f\xfd\xed\x1f\x7e\xfb\x8f\x27\xd3\xe0\x7f\x12\x77\xba\x39\x5e\x59\xae\x9f\xde\x55\xda\xb7\x81\x0d\xd2\xb7\xe5\x1f\x9d\xc7\xe4\xf9\x80\x8d\x3f\xe9\xdd\x87\x4d\x86\x88\x57\xf6\x01\x13\xed\x9b\xa7\x71\xa3\x07\xad\x4a\xbe\x8d\xbf\x36\xe3\x0b\x4e\x48\xa8\x52\xa8\x45\x5f\x76\x69\x5b\x52\x60\xf7\x7e\x49\xd1\x80\xad\x82\x24\xa7\x21\xbe\x20\xb1\xb5\x6f\xe1\x50\x50\xf7\xf6\xa9\x70\xdf\x36\x8f\x05\x3a\x6b\xa4\x23\x81\x32\x5f\x09\xbb\x5e\xfb\xbe\xee\x3e\xe9\xf8\x73\xec\xf1\xd1\x39\x6b\x9a\xfe\x5a\x68\x85\x6e\x5d\x74\xdc\x77\x1e\xb1\x4e\xc0\x63\x3f\xb2\xfb\x94\x1d\x7d\xce\x3a\x27\x49\xc2\x2c\x7e\xc9\x3b\x0e\xdb\x16\x4b\x39\x60\x7b\xce\x5b\x0f\x7b\xfe\x94\xc4\x3d\x18\xaf\x58\x9a\xf2\x7c\xbc\x85\x60\xcc\xd2\x87\x71\x78\xac\x8d\x71\x42\x76\xce\x1c\x3a\x64\xc8\x61\x4d\xab\xe7\xeb\x32\xb2\xa0\x30\x8a\x98\x2c\x85\xa5\x27\x0e\x63\x0d\x8d\x4e\x53\x4b\x41\x5b\xf5\x52\xd8\x0f\xb5\xc9\x0e\x51\xd4\xa7\x7b\xd2\xbb\xed\x34\xf3\xf4\x84\xbd\x28\xf3\x7b\x2c\xcd\xc6\x40\x0e\x01\xa1\x34\x93\x59\x81\x1d\xc3\x66\x21\x86\x43\xe5\x81\x46\x31\x9e\xe7\x08\x40\xd9\x55\x5c\x7a\xa9\x0a\x69\x41\xcb\x67\x35\x26\x12\xc0\x5b\x94\xa5\x30\x86\x9d\x4c\xdd\x8c\xb8\xfc\x6e\xe9\xba\x5b\x57\x6f\x05\xfe\x88\xd6\x21\x19\xbd\x2f\x6f\xda\x9f\x38\xed\xcf\x9c\xf6\xa7\x4e\x7b\x73\xa7\xf4\xda\x07\xb7\x7c\x33\x7d\xda\xca\x9e\xee\x79\x74\x6b\x97\x45\x49\x8e\x0d\x31\x16\xa7\xc2\x55\xf6\xc9\x4d\x32\x61\x48\xd9\xc6\xae\xfc\x82\x4a\x22\x37\x9f\xb3\x1c\xd1\x0b\x99\xcf\xc5\xed\x17\xf5\x62\x21\xf4\x08\x70\x8d\xcb\x8b\x59\x9c\xc0\x77\x5e\xe1\x60\xfb\x8d\xaf\xbd\xaf\x7e\x84\x27\x3f\x0f\xcd\x90\x3d\x7f\x7c\xf5\xea\x03\x5f\xfd\xc0\x61\x30\x9e\x51\x54\x31\xfc\xed\xee\x42\xe2\x6b\xae\x74\x0b\xd2\xe8\x1b\xfa\x3b\x3c\xe1\xe6\xfc\xa8\xed\xd7\xe3\x0e\xbd\xa6\xd8\x75\xe1\xf0\x55\x3d\x0b\x0c\x00\x38\x80\x08\xab\xc5\xab\x7a\x66\xe6\x5a\xce\xe8\xc1\x95\xad\x3b\x85\x69\xfb\x15\x96\xce\x3e\x09\x2e\x21\xee\x49\xa5\xff\xcf\xcc\x12\x17\x3b\xde\xcb\x59\x8e\x43\xc0\xfa\xef\x46\x3c\xba\xaf\x17\xb1\x41\xfb\x1d\xc3\x67\xfc\x5a\x44\x1b\x76\xe8\x3b\x2b\xb8\x47\xfb\xdf\x59\x69\x20\xef\xbd\xea\xd1\x7a\x4f\x36\x0d\x04\x0e\xd7\x3d\xa2\xbd\xee\x79\x5f\x65\x37\x04\x57\x08\xf0\xa7\xf7\xcc\x4a\xb3\xae\x43\x9f\x59\x89\x9e\x57\x69\xaf\xf9\xb9\xb8\x6d\x96\x7d\xd4\x13\x2b\xb0\x51\x3d\xf7\x5c\x43\x58\x67\xab\x4f\x94\xe9\x6a\x7a\x74\xdd\x85\x38\xe2\x0d\x96\x68\x97\x7f\xd4\x1b\x2c\x11\x9c\x50\xfb\x7a\xd4\x63\xa0\x8c\x11\xcb\x75\x71\xd4\xd6\xcb\x2a\x47\xbe\xdd\x11\xc5\x97\x89\xa8\x1b\xb7\x0f\xbb\x6f\xd3\x99\xa5\x13\x80\xcf\xcc\xb2\x3f\xac\xbc\x5d\x71\xd9\x75\xe1\x70\x47\xdd\x76\x61\x96\xe9\x13\xd4\x7b\xdd\x95\x86\x3b\x1e\x3f\xf9\xf4\xa0\x37\x33\x86\x2d\x8e\xda\x53\x2a\x86\x0b\x3e\xa0\x54\x0c\x4b\xc3\xd4\xec\xd7\x62\x1e\x9e\x93\x35\x61\xbf\xfc\x1b\x17\xcf\x78\x79\x4f\x19\x0f\x85\x8c\xe1\x1e\xf9\xc7\x72\x9a\x1a\xe6\xb6\x8c\xd3\xcb\xc2\xcc\x88\xd2\x48\x10\x77\xee\x3e\x4d\xab\x82\xac\x03\xef\xbe\x67\x6c\x2a\x30\xc9\x5c\x79\x44\x39\x6f\x69\xb0\x3d\x95\x64\x9e\xce\x2d\x1e\xa4\xf9\x61\x09\xf1\xc4\x93\x70\xc9\x77\xde\x80\x1d\x1f\x53\xd5\x02\x2b\xfa\xf0\xaa\x96\x68\xf4\x9e\x17\x15\x60\x35\xff\xd3\x2f\x2a\x34\xd8\x6d\x5b\x11\xbd\x0a\xe8\xb2\x9e\xe5\xd2\xac\x1a\xfd\xf3\xe3\x9e\x53\x38\xc4\xfa\xf8\x90\x67\x12\x7c\x21\xc5\xee\xa7\x12\xb6\xb4\x44\x58\x9d\xab\xa5\x08\xef\x25\x50\x55\xc5\x1e\x83\x66\x18\x95\x4b\xb4\x8e\x42\x5c\x23\xd1\xa3\x57\x5a\xd5\x11\x9b\xc5\x11\x9b\xb5\x11\x7f\xc2\x6f\x1e\xa0\x01\xf4\xa1\x6f\x1e\xf4\x50\xa5\x53\xf6\x1d\xf6\xe6\x81\xd7\x0b\x7f\xb4\xd7\x0d\x7a\x50\x3e\x40\x55\xb1\x7e\x5d\x35\x9d\xb2\x43\xd4\x90\xd0\x3a\xa4\x53\x37\xd5\xd1\x74\xca\xb6\x35\xd2\x74\xca\x1e\x22\xe8\x7e\x30\x5d\xe6\xf1\x83\x3f\xfd\x74\xbb\x2d\xc5\x6c\xe5\xf9\x39\x4b\xde\x49\x77\x3b\xeb\x5d\xd2\x33\x8d\xcf\xae\x6e\x03\xf1\x45\xb4\x1e\x91\x8e\x8c\x64\xe7\x9b\x0d\x87\x2a\xe5\xae\x54\xe1\x6e\xad\xdc\xfd\x38\x52\xcc\xc3\x4e\x37\x77\xab\xe6\xce\xc4\x5d\x4b\x33\x6f\xbc\xed\xe0\xff\x47\x6a\x5c\xe5\x4c\x54\xe3\xc2\x7b\x94\x35\x2c\xce\x4b\xfa\x67\x66\xb9\xa9\xab\x4f\x11\xd7\x9f\x46\x61\x1f\x6a\x63\xed\xcb\xd7\xed\x55\xd0\x61\x22\x04\x1c\xc0\x8d\xa3\x6d\xf8\xef\x00\x00\x00\xff\xff\x9b\xf7\x11\x8f\x54\x69\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x5b\x6f\xe4\x38\x76\xf0\xb3\xf4\x2b\xce\x08\x73\x91\xfc\x95\x55\xf3\x7d\xc0\x17\x6c\xdc\x70\x80\x6e\xb7\xe7\xb2\x3b\xee\xf6\xda\xee\x1d\x20\x8d\x46\x2f\xab\xc4\xaa\xe2\x5a\xb7\x26\x29\xdb\xb5\x95\x7a\xc9\xcb\x06\x48\x80\x00\x79\xca\x43\xb0\xc8\x53\x5e\x83\x3c\xe7\xf7\xec\x04\xfb\x2f\x82\xc3\x9b\xa8\x2a\xa9\x2e\x3d\xb3\x41\x10\xa4\x81\x1d\x97\x28\xf2\xf0\xf0\xf0\xf0\xdc\xa9\x1d\x8f\xe1\xa2\xca\x28\xcc\x69\x49\x39\x91\x34\x83\xc9\x12\x26\x84\x57\x65\x0a\x2f\x5f\xc3\xab\xd7\x77\x70\xf9\xf2\xdb\xbb\x34\x1c\x8f\xe1\x86\xf2\xa6\x2c\x59\x39\xd7\x1d\xe0\x91\xe5\x39\x54\x0f\x94\x3f\x72\x26\x29\xc8\x05\x13\x30\x63\x39\x55\x9d\x7f\x45\xb9\x60\x55\x79\x06\xab\x55\x6a\x7e\xaf\xd7\xde\x0b\x78\x49\x24\xf5\xdf\xe2\xf3\x7a\x1d\x86\x35\x99\xde\x93\x39\xc5\x37\xd7\xfa\xe7\x2b\x52\xa8\x37\xe3\x31\xdc\xd9\x39\x60\x5a\x95\x92\xb0\x52\x40\x41\xe5\xa2\xca\x04\xc8\x0a\x0a\x72\x4f\x81\x95\x19\x7b\x60\x59\x43\x72\xa0\x65\x56\x57\xac\x94\x02\x66\xbc\x2a\x40\x50\xfe\xc0\xa6\x54\x8c\x10\x0d\x4e\x3f\x34\x54\x48\x20\x65\x06\x9c\x8a\xba\x2a\x05\x05\xb9\xac\xa9\x82\x84\x5d\x71\x45\x95\xa0\x2d\x94\x11\x10\x01\x8f\x34\xcf\xf1\x2f\x2d\xa7\x55\x46\xb9\x40\x00\x08\x2f\xa3\xe6\x79\x56\x71\x33\x50\x41\x1b\xa9\x06\x82\x94\x9a\x41\xd5\x70\x10\x4d\x5d\x57\x1c\x29\x2d\x39\x29\x05\xfe\x46\xcc\x18\xc9\xd9\x6f\x89\x64\x55\x89\xd0\x66\x15\x2f\x88\x14\x69\x18\xb2\x42\xf5\x88\xc3\x20\x9a\x2c\x25\x15\x51\x18\x44\xb8\x76\xfa\x24\xf1\xa7\x42\x83\x95\xf3\xf1\x6f\x44\x55\x62\xc3\xac\x50\xed\xac\xd2\xff\x1d\xb3\xaa\x91\x2c\xc7\x87\x92\xca\xf1\x42\xca\xda\xfe\x6e\xb8\x6a\x16\x92\x4f\xab\xf2\xc1\xfc\x64\xe5\x5c\x44\x61\x18\x44\x73\x26\x17\xcd\x24\x9d\x56\xc5\x78\x5e\x9d\xde\x33\x39\xc6\xff\x59\x5a\x44\x61\x40\xca\x65\x3d\x81\x68\x5e\x55\xf3\x9c\xa6\xf3\x2a\x27\xe5\x3c\xad\xf8\x7c\x5c\xf3\x4a\x56\x93\x66\x36\x56\xeb\x1f\xdf\x97\xd5\x63\x39\x56\xbd\xa3\x30\xc8\x1a\xae\x16\x79\xc4\xd0\x76\x48\x14\x06\xb4\xa8\xe5\x31\xf3\x9a\xfe\x51\x18\xcc\x18\xcd\xb3\x82\x88\xfb\x23\x46\x7b\x63\xa2\x30\x10\x92\x37\x53\x79\xc4\x70\x3b\x20\x0a\x03\xc9\x0a\x2a\x24\x29\xea\x23\x86\x7b\x63\xa2\x30\x78\xe4\xa4\xae\x29\x17\x47\x00\x68\x87\x6c\x6f\x29\x67\x79\x4e\xc6\x45\xf3\x14\x75\xdf\xd4\xf7\xf3\x31\xe5\xbc\xe2\x8a\xd3\x76\x4c\xe4\x38\x4f\xb5\x58\xf6\xdb\x31\x40\xfd\x40\x44\x56\xab\x53\x60\x33\xa0\x1f\x20\xbd\xa8\xca\x19\x9b\xa7\x77\xee\x24\x44\x24\xcf\x23\x88\x4a\x22\x45\x04\xeb\x75\x17\x37\x6c\x3d\x65\x95\xfa\x9b\xce\x91\xc3\x11\x14\x2d\xb3\xf5\xfa\x20\xa8\x73\x5e\x4f\x2d\xd4\x2d\x3c\xd5\xcb\xc1\x37\xe3\x82\x4a\x92\x11\x49\x36\x27\x3d\x78\x4a\x84\xdf\x9e\xf8\x81\xf3\xe5\x3a\x58\x74\xbc\xb9\xf0\xec\x1e\x01\x00\xbb\x47\x07\x91\xa5\x25\x36\xfe\x3a\x62\x0a\xec\xde\xc1\x31\x09\xc3\xf0\x81\x70\x88\xc3\xe0\x3d\x9c\xc3\xac\x90\xe9\x6d\xcd\x59\x29\xf5\xb3\x12\x60\xe9\x45\x55\xd4\x84\x53\xdd\x64\xa4\x4f\xfa\x5c\x56\x4c\xb7\x74\x96\x99\xbe\xa2\x8f\xb7\x94\x3f\x50\xae\x5f\x6a\x69\x96\xbe\xaa\xea\x8b\xbc\x12\x6d\x6b\x7a\x51\xd5\x4b\xfd\xa0\x99\x37\xfd\x9e\x93\x3a\x0c\xc6\x63\x30\xfb\x69\xd9\x50\xcb\x78\xec\xaa\x44\x52\xfa\xbc\x54\xe3\x5a\x21\x93\xbe\x34\x3f\xb1\xd9\x88\x8f\xf4\x12\xff\x62\x83\x3d\xd2\xe9\xad\xfa\x81\x4d\xde\x31\x4d\xef\xec\x6f\x7c\xd1\x1e\x3f\xec\xcd\xca\xf9\xaf\x48\xde\xa8\x75\x7b\x72\x25\xfd\x0a\x7f\x5f\x11\x71\x1f\x26\x61\x38\x3e\x39\xe8\x1f\x5c\x5a\x9d\x04\xb6\x69\xff\xbf\xb1\xd2\xa0\xdf\x96\x40\x50\xdf\x3c\x50\x3e\x02\x26\xbf\x10\xd0\x08\x3a\x6b\x72\xa5\xa6\x66\x4d\x39\x45\x2a\x08\x90\x0b\x22\xa1\xa4\xa8\xa5\x2a\xa8\x6a\x65\x1b\x40\x85\x63\x6b\xca\x4f\xad\x1a\x40\x80\x13\x22\x98\x48\xe1\xab\x8a\x03\x7d\x22\x45\x9d\xd3\x11\x2c\xab\x06\x0a\x36\x5f\x48\xa8\x89\x40\x15\xe9\x21\x2c\x2b\x20\x6e\x22\x3d\x4f\xcd\xab\xac\x99\x52\x81\xe0\x48\xa9\x38\x20\xfd\x86\x94\x59\x8e\x38\x3e\x32\xb9\x00\x4a\xa6\x0b\xa3\xe9\x21\xb6\xb3\x27\xf0\xc8\x38\xcd\xa0\xa9\x11\x49\x02\xa2\xa6\x53\x36\x63\x53\xa8\x89\x5c\xa4\x10\x7f\x2b\x11\x20\x13\x50\xf3\x6a\x42\x26\xf9\x12\x08\x14\x4c\x48\x6d\x25\x40\x46\x05\x9b\x97\x38\x94\x95\x0f\xd5\x3d\xaa\x7b\x0a\xc8\x6c\x6c\x4a\x9d\x55\xa1\x50\xa4\x08\xa7\x5d\x81\xe6\x01\x60\x2d\x25\xd3\x24\x1c\x8f\x1d\x75\xa7\x39\xa3\xa5\xec\x52\x57\x56\x30\xad\xf2\x9c\x4e\xa5\x67\xa0\xe4\x4b\x98\x56\xa5\x06\x47\x33\xcf\x5c\x61\x25\x2e\x08\x01\x0a\x56\xce\x73\x6d\x98\x68\x5a\x31\xa4\x70\x41\x11\x0f\x1f\x5f\x56\x4a\xca\x67\x64\x4a\x87\x76\x02\x81\xb9\xc9\xfa\x8d\xa4\x06\x27\x6b\xad\x12\x65\x2c\xe0\x01\xbc\x30\xeb\x99\x56\xc5\x84\x95\x8a\x4e\x85\x41\xd1\xdb\xd8\x91\x31\xa5\x64\xc3\x4b\x60\x12\xe9\x8a\x08\x4e\x49\x9e\x53\x8e\x16\x13\xb1\xc8\xa6\xa1\x5a\xce\x16\x41\x57\x61\xf0\xa6\x74\xeb\xa3\xd9\x6a\x95\xda\x11\xda\x04\x34\x92\x60\xb5\xe2\xa4\x9c\x53\xf8\x94\xc1\xd9\x39\xb8\x3e\x57\x7a\xcb\x50\x8e\xad\x56\x9f\x32\x33\xc6\xce\x02\x00\x6e\xa9\xa9\x6d\x0c\x57\x2b\x2d\x5c\xb5\x75\x69\x9b\xc5\xfe\x29\x90\x81\x21\xf6\x16\x91\x80\x37\x69\x3c\x95\x4f\x60\xac\x34\x54\x0d\xf8\x77\x84\x0c\x73\xb2\x5a\x7d\x5d\x21\x62\xf0\x29\x4b\x6f\xb4\x09\x7a\xb7\xac\xed\x02\x13\x88\x37\x7a\x68\xc3\xd4\xeb\x32\xd2\x02\x2e\x81\x55\x18\x58\xbb\x55\xb5\x21\xa2\x34\xed\x59\x39\x22\x83\x93\x27\x61\x80\xca\x8a\x73\xf8\xe4\x1c\x4a\x96\x23\x84\xc0\xec\x57\xc9\x72\x05\x24\x0c\xd6\xa1\x6d\xb3\xd0\xd3\xbd\x38\x25\x23\x84\x17\xae\x1d\x39\x91\x98\x57\xe4\xde\x23\x4f\xb8\x5a\xa9\x83\xfc\xa9\xa4\x88\x68\xba\xc6\xce\xa7\xe0\x53\xf9\x53\x49\x87\x08\x8d\xb0\xfa\x56\x26\x90\xe8\x92\xf6\xb2\x49\xb2\xbd\xdd\xb0\x72\x8b\xc3\xfd\xeb\xdf\x25\xeb\x18\xb8\x13\xb5\x5a\x27\x10\x5b\x62\xf8\xcd\x8a\x62\xde\x76\x04\x9c\x7e\xc0\x85\x18\x08\x69\xbc\x6f\xb7\xc3\x20\x78\x70\x7b\x27\xfc\xbd\x43\xd4\x14\x2a\x49\x18\xf4\xec\xda\xf6\xb6\xe1\xbe\xd9\xd6\x07\xbd\x1d\x01\xb2\x75\xab\x9b\xfd\xbd\x41\xe5\xf8\x3c\xcf\x2f\x9f\xa6\xb4\x96\x4a\x4f\x09\x2d\x62\x1d\xa5\x94\x86\x42\x97\xc5\x9c\x4d\xfb\x42\x80\xda\x46\x82\x50\x3c\x9b\xc0\x91\xfa\x8a\x65\x59\x4e\x1f\x09\xd7\x5e\xe0\x1b\x61\xfd\x42\x74\x82\xea\x3a\x5f\xa2\x88\x41\xb1\x29\x11\x78\xe1\x7a\x2b\xaf\x8b\x3e\x50\xbe\x74\xdb\x86\xe7\x05\x25\x88\x71\xdb\x14\xbc\xd7\x35\x6a\x0d\x92\xe7\xcb\x91\xeb\x27\x60\x4a\x4a\x98\x50\xa5\x6b\x68\x86\xc3\x26\x4b\x28\x91\xec\xb2\xc2\x76\xfa\x34\xcd\x9b\x8c\x66\xda\x0b\x9c\x50\x44\x01\xd7\x5c\xd3\x2c\xdd\xa2\x46\xdc\xe2\x34\x82\xe8\x56\x12\xd9\x88\x68\x04\xd1\x35\x2b\xe7\x51\xe2\xce\xfd\x89\x23\x48\x32\x38\xde\x61\xe8\x51\x65\xd4\x62\x93\xa6\xa9\x50\x66\x81\x62\x1e\x56\x9a\xe6\xb3\x73\x28\x48\xfd\x56\xbf\x7a\xa7\xc9\xbf\x5a\x23\x7b\x6d\x1e\x98\x9e\xd3\x12\x04\x41\xe4\xb1\x51\x74\x06\xab\xf5\x28\x0c\x7c\x33\x72\x1d\x86\x01\xea\xfa\xf7\x88\x0a\x82\xd1\x20\x1d\x5a\x38\x13\x9b\xc1\xfb\x11\x54\xf7\xf8\xda\x22\xf6\x96\x3e\xbd\x7b\x06\x9f\x54\xf7\x88\x6d\x10\xd4\xa4\x64\xd3\xb8\xb5\xf0\x66\x71\x74\x69\x41\xd8\x75\xc3\x17\x9f\x89\x2f\x20\xab\xa8\x80\xb2\x92\x40\x9f\x98\x90\xcf\x40\x50\xea\x6f\xbc\xf3\x29\x95\x49\x8f\x48\x25\x89\xe1\xe7\x8c\xe6\x54\xd2\xd8\x62\xa0\xde\xb5\x0b\x60\xe5\xb4\x45\xdf\xf6\x81\xc3\x09\xc5\x66\x0a\xc4\xf9\x39\x74\x48\xa6\x20\x04\x41\xaf\x28\x85\x73\x0f\xf3\xb8\xb7\x0b\xe2\x1e\xac\x37\x49\xae\x8f\xdd\x77\x64\x42\x73\x9a\xb5\xdc\xa0\x43\x28\x73\x2a\x2d\xef\x22\xbf\x3b\xea\x29\x16\x7e\x5c\xd0\xd2\xbd\xad\x3c\x76\x35\xc0\x34\xd7\x8d\xf4\x29\x33\x07\xa1\xd1\x9d\x41\xc7\x65\x88\x0e\xee\xb0\x29\x1a\x35\x9c\x4d\x95\x99\xd5\x2e\x03\x1e\x17\x6c\xba\x50\x67\x48\xd0\xb2\x0f\x05\xa3\xc9\xcd\x68\x6b\xc7\x54\xdc\xe8\xf1\xed\x55\xe1\x21\x89\x35\x03\x8f\xb6\xa5\x70\x8f\x60\x0e\x87\xd6\xf5\xd1\xb2\x69\x0b\xa9\x91\x59\xa7\xa2\x38\xa7\x53\xca\x1e\x50\x34\x51\xbd\xc4\x6a\xd6\x59\x77\x0a\xb7\x94\x3a\x30\x1e\x14\xf5\xc2\x1a\xa2\x06\xe1\xcb\x27\x44\x14\x39\x32\xa3\x92\xb0\x5c\xa0\x9d\x6c\x8f\x13\x02\xb1\xc6\x2e\xc9\x99\x5c\xa6\xbb\x44\x48\x67\xed\x71\xf1\x23\x28\xfa\xbf\x72\xe6\x7f\x8e\x9c\xe9\x0c\x1b\xc1\x51\x62\xe7\xf0\x00\xc5\xa1\xae\xe7\xd7\x37\xd7\x17\xb8\x4e\xca\x8f\xf6\x3d\xd1\x8c\xf3\x86\x63\xb8\x56\xb4\xc6\x80\xdb\x1f\x20\x0f\x84\xe5\x64\x92\x53\xed\x36\xcc\x6f\xae\x2f\x60\xc0\x19\x30\xc7\xa9\x0b\xd9\x79\x88\xa2\x95\x0d\x23\xa8\x94\xed\x20\xf0\x3c\x74\x62\x31\x8a\xbd\x29\xd7\xa6\x45\x32\x34\x11\x6e\x97\xf0\x3a\x0a\xe4\x89\xb7\xef\x86\x21\x21\xf7\xf6\xbd\x7d\x41\x67\x15\xa7\x31\x62\x7b\x65\x62\x4a\x77\x95\xb1\x3e\x93\x11\xee\xda\xc6\x3c\xe7\x68\x38\xd1\x32\x8b\x3b\xcd\x6e\x3d\x69\x9a\x26\x2a\xd0\xb1\x5a\xc1\x5d\xf5\x5d\xf5\x48\x79\xcb\x88\x48\x2a\xdc\x5c\x6b\x1a\x7e\x8e\x18\xe1\x4b\xca\x57\xe8\x26\xed\xe5\xde\xd5\xca\xc2\x74\x2c\x77\x06\xdd\x65\xb9\x10\x4d\x8c\x0c\xed\x48\xdf\xc7\xa5\x68\x8a\x04\x2f\x55\xa4\x1c\xd7\xef\xf5\x30\xd6\xb1\xea\x70\x59\xf6\x76\x30\xbe\x0e\xf6\xe8\x50\x22\x4d\x53\x1c\x86\xb4\xdb\x60\x7e\x14\xbe\xed\x82\x37\x5d\x67\x67\x9c\xf7\xef\xb7\x33\xf4\xb5\x96\xf3\xe0\xfc\x09\xdc\xd5\x2d\x22\x03\x6c\x50\xd9\xc4\x43\x3c\x83\xde\xb8\x59\x26\x50\x81\xa2\xd6\xc3\x51\x56\xed\x72\x0f\x5f\xe9\x5e\x54\xd5\x61\x8b\x05\x9c\xb4\x53\x25\x2d\xf8\x3d\xfe\x2f\xba\x47\x3f\xad\x03\xfc\x1e\x7d\xa4\xba\xe3\x42\x6d\x51\x52\xad\x42\x71\x93\xef\x54\x1d\xe9\x09\xd7\x1f\xe9\x04\x1b\x0a\x6b\x96\xdf\x4f\xde\xf1\x18\x76\x9d\x0e\x60\x28\x0e\x1d\x4f\xa8\x18\x71\xaa\x07\x98\x1e\x5f\xe1\xfe\xa8\x38\x11\xe6\x74\x28\x97\x42\x87\x91\x8c\x08\xdd\x66\x33\xeb\xed\x62\x30\x07\x63\x55\xfc\x34\xab\x0a\xc2\xca\x5d\x9d\x53\xb8\xe6\xac\x20\x9c\xe5\x4b\x1b\xde\xf2\x63\x61\x5a\x22\xef\x5a\x47\xfc\x7e\x9b\x39\x70\x2d\x37\xf4\x43\xcb\x8c\xca\xed\xf6\x9e\xba\x81\x0f\xe5\x68\x9b\x31\x87\x38\xda\x6e\x27\x3f\xec\xd8\xa6\xcb\xf2\xe0\x6d\xda\x29\xa3\x7a\xf7\x49\x8f\xb0\x5d\x86\x36\x6a\xff\x16\x98\x29\xd4\x86\xed\xd8\xd6\x3a\x5f\x1e\xb4\x4f\x3b\x17\xd2\xb7\x51\x7d\x91\x90\x5d\x3b\x25\x6a\xdc\x2a\x3b\xea\x80\x73\xe4\x6d\x96\xa8\xfb\x76\xeb\x1b\x9a\x63\x58\x3d\xd4\x8c\xd6\xab\x48\xfb\x05\x50\x91\x81\x4d\xe3\xa4\x57\x2f\x93\xcd\x0e\x88\x2f\x8a\xd1\xfb\x11\x3c\xb4\x16\x5f\xe1\x4c\xd5\x87\x4e\x08\x46\x65\xa3\x29\xdc\xd3\xa5\xda\xee\x0c\x6d\xda\x49\x25\x17\x48\x63\x3b\x8b\xc9\xe3\x42\x7c\x9f\x18\xf7\x03\xbb\xe6\x39\xe4\xb8\x5f\x06\x0a\x31\x4e\x97\x0a\xb7\x5e\x90\xb2\x2a\xd9\x94\xe4\xdf\x50\x92\x51\xfe\x0b\xba\xb4\xbe\x09\x4e\x24\x2a\x13\x04\x96\xc6\xd5\xb3\x20\xa6\x53\x6a\x63\x1f\x94\xc9\x05\xe5\x66\x66\x7c\x8f\xa4\x38\x77\x6b\xfd\x9e\xc9\x85\xca\x43\x20\x89\x46\x6a\xad\x6f\xbf\x7c\x97\xec\xed\x38\x80\x5d\x7c\x9f\xb4\x10\x8c\xd5\x6f\xb6\x6f\x2a\x9f\x94\x0e\xb6\x36\xe0\xee\x7f\x6a\x1f\x75\xa4\xf9\x68\xbb\xf2\x15\x7d\xf4\x46\xeb\xe9\x55\xd6\xc1\x84\x8e\x60\x42\xa6\xf7\xb8\x3d\x4b\x7b\x66\x74\x88\x1e\xd7\x5a\x52\x95\xf1\x48\xe1\x5b\x89\xfb\x68\x82\xfd\x86\x5d\xd9\x84\xa1\xcf\x66\xb7\xc0\xc4\xb2\x65\x05\x19\x23\xb9\x0e\x78\xe7\x44\x52\x0e\x53\xcc\x46\xa1\x13\x4e\x7d\x98\x9a\x41\x3b\xd8\xc5\xf8\x5a\xab\xcf\x54\xe3\x7b\x51\x95\xe5\x0e\xe3\x54\x77\xb2\xc6\x69\x3c\x60\x9d\xfa\x47\x0e\x2d\x84\xcd\x58\x6b\xe0\xb5\xd6\xf7\x73\x3c\x69\x36\xe4\xda\x2d\xb2\x08\xb6\xbd\x1a\x3f\xc0\xda\xca\xc0\xe0\x81\xf0\x3e\xd1\x63\x4d\xbd\x6d\x97\x34\x0c\x56\xfd\x06\xa5\x1b\x72\xbe\x6d\x59\x1a\xaa\x29\xf6\x44\x42\x59\xcf\xd3\x2c\x62\xbd\x4e\xfb\x22\xc0\x91\xeb\x67\xe7\x88\x76\x59\x96\xad\xe9\xf9\x92\xee\x33\x3d\xf7\x48\x2f\x1d\x6e\x0b\x5a\xdb\x1c\x1f\x13\x47\x83\x58\xf9\x95\x8a\xc8\xc6\x4e\x6d\x7f\xd9\x1f\xee\x00\xd9\x41\x62\xaf\xa9\x0e\xa7\x06\x94\xc3\xd9\x8e\x3d\xc3\xbc\xc7\x0e\x9a\x8f\xda\x79\x83\xb5\x15\xb6\x28\x64\x91\x06\x60\x4e\xd4\x8f\x37\x5f\x76\xe8\xc5\x97\xf4\x10\xbd\xb8\x5b\xd3\x1d\x6a\xbe\x18\x1d\x34\xa0\x17\xb5\x50\x30\xa7\xf6\x25\x3d\x52\x2f\xe2\x62\x6e\x14\x32\x07\x2a\x46\xec\xea\x8c\x18\x54\xd7\x47\xa9\xc6\x3a\x5f\xf6\xe9\x46\x7f\xdb\x7e\xbc\x39\x33\x6c\x75\x5e\x96\x07\x58\x9d\xfb\x37\xc4\x33\x3e\x77\xec\xf0\x4e\xab\xb3\xb3\x6b\xbb\xd6\xd1\x6f\xcc\x98\x25\x1e\xb6\x65\xc7\xa6\x77\x76\x5b\x9d\x06\x0b\xa5\x8d\xc5\x5d\xe5\x1b\x32\xfa\xa4\xf4\x69\x02\x33\x0f\x9e\x13\xcd\xa8\x3b\xa0\xc4\xf7\x74\x29\xe0\xed\x3b\x1b\xfe\xdb\x03\xef\xa0\xf4\x58\x91\xc1\xc9\x3e\x23\x4a\xe9\x86\x9a\x30\xde\x4e\x1e\x06\x36\x18\x78\xdf\x9a\x56\x0a\xbd\x95\x89\x91\x3d\xd8\x40\xe0\x54\x3e\xa5\x8a\x26\xf1\x7d\x92\x9a\xa0\x67\xf2\x0c\x6c\x40\x30\xd0\x80\x5d\x54\x44\x3d\x6a\x43\xc6\x05\xc1\x50\x88\x22\x4c\xf5\xae\x63\xb5\x9d\x14\x19\x06\xd7\xec\x02\x7e\x5e\xb1\x32\x3e\x29\xb2\x51\xdb\x74\x8d\x63\x62\x35\x12\x43\x2b\x89\x05\x67\x28\x83\x56\x8d\x89\xac\xe9\x9d\x3c\x34\x6e\xf6\xcd\xdd\xdd\xb5\xf1\x33\x6c\xdb\xfe\x7f\xe3\x30\x54\x49\x7b\x4d\xe5\x52\xb1\x17\x9c\x43\x44\xea\x3a\x67\x53\x55\xa6\xa2\x2a\xff\x9e\xc1\x74\x41\xb8\xa0\xf2\xbc\x91\xb3\xd3\x9f\x45\x2e\xdc\x86\xb3\x9a\xd0\x81\xc9\xcd\x23\x63\x2d\x4c\x8b\x3a\xb3\xfb\xc3\x70\x08\xac\x2a\xa1\xe6\x34\xa3\x33\x56\xd2\x4c\x55\x58\x08\x73\xe6\x36\xa6\xd9\x1b\x7c\xeb\x16\xf8\x74\x83\x6f\x7e\xe9\x87\xb5\x65\xd8\x0c\x52\x05\x5f\x99\xfd\x9e\xdc\xda\x88\x03\x21\xef\xbc\x7d\x37\x0c\x5d\xed\x7f\xdf\x6b\x13\x91\xd3\x73\xa0\x5d\x2b\x3a\x01\xb9\xfe\x41\x97\x28\xc9\xb5\xb8\xe1\x31\xf5\x1e\x86\x87\x3c\x9f\x49\xca\xe3\xcd\x37\xf2\xa2\xdd\xda\xd8\xdb\xe6\x44\x01\xda\x5e\xe5\x41\xe1\x40\x13\x25\x52\xa1\xbf\x02\x09\x53\x34\x4f\x68\x4e\xdd\x54\x0d\xe2\x90\x84\x9e\x45\x61\xb2\x19\x67\xe7\x83\x64\x76\x5d\x27\x58\x37\x52\xce\x11\xa0\x19\x96\xbe\xd0\x4d\x26\xd6\x5d\xd8\x71\x31\x1a\x69\xa6\x3b\x56\xf8\x4e\xe0\xaf\xe0\xae\x7a\x83\x15\x8c\xeb\x75\x94\xa4\xd7\x44\x2e\x3a\x7d\xb0\xe1\x8e\x16\x35\xda\xd3\xaa\x87\x65\xa7\x81\x7a\x30\x15\x6c\xec\x46\x1b\x0d\x46\x5b\x06\x8e\xb3\xeb\x70\x79\xde\x94\x2a\xdb\xe2\xd4\x83\xee\xa8\x77\x14\x3b\x7e\xad\x93\x66\x56\x0d\xeb\xd7\x7d\x81\xc7\x40\xe5\x11\xda\xb8\x9c\xff\xd3\x08\x8d\xc2\x18\x55\x3e\xd3\xe8\xec\x9c\xf2\x38\xb4\x59\x60\xf3\x6c\x76\xc6\xef\xf1\x3d\x1f\xa1\xd7\x92\xd1\x19\x69\x72\x89\xda\x4e\x33\x08\x9e\x48\x15\x96\xac\x66\xb0\x29\x0b\x46\x40\x60\x52\x65\xca\x71\x44\xd9\xa0\xcd\x7e\x74\x1f\x23\x35\x4f\xe4\x3c\xce\x07\x94\xb2\x08\x4a\xb5\xa7\x0a\xbb\x38\xd1\x7e\x0d\x01\xa1\x72\xdf\x80\xf4\x40\x50\xff\xff\xcb\x2f\x53\xf8\xd6\xe4\xc9\xb0\xa7\x1f\x4f\xd5\xe7\x86\x72\x55\x5a\x8d\x3d\x6a\x5e\x3d\x30\x74\x89\x17\xea\x0d\x96\x0d\xe4\x39\x26\xe3\x15\xb6\x3a\x3d\x89\xfd\x5a\x9b\xcc\x07\x8d\x50\x3c\xe8\xb8\x8a\xf4\x8a\x70\xb1\x20\xaa\x24\xcc\xe2\x5f\xe8\x26\xcc\xe7\x8b\x66\x3a\xa5\x34\x13\xda\x07\xfb\xf9\xed\xeb\x57\xa6\x42\x3b\xb3\xe5\xd4\xd6\x89\x53\x6b\x75\xe8\x60\xaa\x74\x78\x59\x3a\xfd\x8f\x05\xf2\x7c\x64\x5d\x43\xb7\xb2\xf6\x65\x07\x1a\xb0\x52\x48\x4a\x32\x4b\x33\x2d\x24\x7d\x09\xd1\x67\x88\xb8\x4a\x92\x11\x3c\xea\x02\xb8\x2e\x1b\x28\x9b\x11\x77\x75\x04\xef\xf1\xf8\xf9\x24\xd1\xe2\x07\xb3\x91\x35\xe5\x2b\xb5\x8b\x67\xb8\x16\xbb\xa1\x68\x89\xb0\x99\xa5\x16\x12\x50\x2b\x5a\xec\x12\x77\x69\xdb\xea\x59\x36\x03\x7c\xf5\x42\x4d\x69\x86\x5e\xea\x30\xab\x03\x64\xc7\x21\xb9\xe3\xe4\x99\x9d\x01\xbb\x9d\x7b\x3a\x17\xd1\x86\x73\x07\xce\x06\x0a\x82\xc7\x54\xb3\x4d\x9c\xa4\xb7\x54\xc6\x91\x11\x84\xa7\x77\xcb\x9a\x46\x23\x5f\xe5\xe9\x05\x2c\x2c\x93\xf9\xf8\x77\xc5\x83\xe5\xc3\x76\x1d\x68\x75\x78\x26\x87\x85\x61\x7a\x8a\x58\x11\x36\xd8\xc4\xe5\x7e\xd4\xd3\x33\xfd\x9a\xca\xf8\xde\x66\x0d\xd7\x61\xa0\x8e\xc6\x99\x2e\x59\x4d\x35\x3b\x7c\x8b\xa6\x63\x49\x72\x4f\x49\x28\xdc\xc5\x74\x07\xd6\x1e\x9b\xb5\x88\x2b\xe0\xe7\x20\xa6\x06\x32\xbe\x36\xee\xe3\x63\xaa\x98\xc2\x60\x8c\x1d\x13\xd7\x18\x23\xb5\x13\x94\x37\x2d\xdf\x69\x5f\x86\xc7\x93\x66\x06\x6f\xdf\x61\x15\x6e\x62\x78\x7d\x15\x2a\x5b\xed\x11\x7c\x16\x72\xd1\x71\xcb\x67\x6f\x4a\xb3\xb3\x08\x61\x04\x9f\x3f\x26\xcf\x36\xa3\xe7\xda\x4a\x11\xec\xb7\x14\xce\xe1\x67\xff\xf7\xcf\xff\x4c\xb3\x50\x4e\x4b\x1c\x93\xc0\x5f\xe8\x77\xd8\x35\x40\x34\xce\x61\xd2\xcc\xde\x9e\x61\xe3\x3b\xa3\xe6\x8c\xac\xc4\x92\x12\x45\xb7\x59\x1c\x59\xe9\x00\xb8\x28\x95\xe5\x3d\xc3\xc0\x17\x26\x79\x6b\x34\x77\xa0\xac\xca\x53\xe4\x2b\x67\xc8\x63\xc7\x68\x84\xc0\x4d\x06\xd7\x40\x35\x55\xc1\xaf\xe8\x63\xfc\xa8\xcf\x85\xa2\x91\x92\xa1\xfe\xda\x6d\x4d\xc1\x2a\x0c\x54\x2f\x7c\x46\xf9\xf2\x6b\x9c\xe5\xcc\x08\xd0\x5f\x1b\x71\x8e\xfb\x6e\x7a\x11\xc9\xc4\x8c\xe1\xe5\x91\x05\x75\xd2\x50\x09\x52\x6f\x73\x5b\x37\x43\x00\x53\xf7\x3c\xec\x65\x97\x43\x8a\xb9\x53\x9d\x88\xf2\x26\x75\xa8\x2a\xb4\xf0\x82\x82\x9d\x0a\x67\x0a\x03\x2b\x7b\x01\xfc\x54\xbf\x33\xc9\x2d\x8f\xc4\x8b\x16\x68\xe2\xc9\xbc\x38\x81\x6e\xd1\xdc\x22\x6d\x67\x18\x18\xdd\x1e\x2b\x6c\x34\x67\xa7\x03\xc2\x20\x15\x76\x22\xef\x9b\x11\x86\xbd\x36\x89\x17\xa4\xda\x63\x94\xb8\xa0\xc4\x4e\xed\xbf\xe9\xe4\x2a\xec\xfb\x53\x2b\x2a\xd9\xaa\xaf\xfb\xe0\x18\x14\x7e\xa7\x46\xd7\xf8\xfe\xab\x9d\xe7\x9a\x70\x5a\x4a\xe3\x13\x3a\x3e\x55\xa5\x68\xa8\x8e\x10\x2b\xdb\xaa\x20\x23\x07\xef\x8b\xdc\x07\x5e\x88\x62\xe7\xb2\x7a\x7d\x5e\x38\x31\x0a\x46\x75\x19\xf6\x77\x83\x8c\xce\x28\x07\x9e\xa2\xd4\x4e\x2f\x30\xc4\x89\x02\x48\x49\x0c\xf4\x85\x5b\xf7\x77\x63\xad\x06\x32\x4a\x6e\x34\x82\xf0\xc0\xbb\x1c\x9d\xa9\xe0\xbf\xa1\x24\x7b\x9e\xe7\xb1\x06\x7e\x58\x95\xa3\x2d\xeb\x9f\xa1\xc2\x1b\x41\x64\x24\x01\x47\x65\x6b\x0d\x1e\x5c\x99\x25\x67\x64\x24\xf5\x86\x20\xfa\x52\xad\x2d\x68\xac\x50\x43\xd7\xe8\xec\x1c\xdc\x35\x96\x56\xdc\x19\x3b\x4f\x75\x0f\x9e\xe7\x79\xf5\x78\x4d\xb8\x64\x24\xc7\xa8\x9a\xe4\x8d\x31\x0a\x5f\x32\x31\x25\x3c\x7b\x53\xaa\x2b\x47\x67\xed\x1b\x5b\xfe\x81\x4b\x3f\x07\x7f\xc2\x2d\x91\x8a\x59\xc9\x2d\xa1\xda\x2f\x56\x87\x05\x6b\xaf\x68\x35\x68\x74\x88\xe9\x0e\xec\xaa\x87\xac\x86\x7a\x1f\x25\x73\x35\x41\x02\x4f\x21\xbe\x20\x99\x61\x07\xf3\x0e\x11\x68\xd1\x72\xde\x3a\x7a\x94\xd7\x84\x93\x42\x58\x77\xe5\x57\x84\x8b\x98\xe3\x1e\xe2\xb5\x8e\xf6\x3d\xfa\xf6\x1f\x1a\xca\x97\x6d\x77\x9e\xbe\xb9\xf9\x2e\xfd\x25\x36\xc6\x76\x80\xd7\x25\xf4\x7d\x18\x5d\xd9\x7a\x76\xde\x72\xad\xba\x81\x61\x1c\x18\x55\x2f\x53\xda\x6e\xe9\x77\x95\x36\xac\x21\x52\x8b\xd4\x7d\x30\xce\xaa\xa0\xa4\x5f\xd3\x52\x4d\xea\x76\x13\xbd\x9b\xfe\xf0\xee\x6e\x14\x5e\x97\xb4\x9a\x6d\xe1\x41\x3f\x6c\xe3\xa1\x96\xf5\x63\x10\x71\xc7\xea\x73\x4e\x3f\xb4\xa9\x6e\xe3\xb4\xa8\x48\xb2\xed\xda\x46\x06\x7b\x1c\xa2\x5e\x89\x39\x94\xe4\xd4\xf2\x51\x58\xef\xc0\xe9\x75\x22\x94\xfc\xdc\xf4\x06\xb4\x6f\xc4\x8f\x48\x60\xf6\x20\xd8\x27\xfb\x7a\x6d\xeb\xa1\x9c\xa6\x33\x91\x86\x04\xc5\xd5\x96\x98\xd8\x14\x12\x4e\x16\xbc\x11\xf4\x1a\x05\x0c\xca\x4b\xe1\x8b\x8f\x37\x82\x5e\x96\x4d\xf1\xaa\x29\x26\x94\x8b\xb3\xf6\xc5\x65\xc1\xe4\x9b\xb2\xae\xea\x06\x5d\xe2\xcc\x89\x95\x75\xd8\x91\xa7\x2d\x6e\x16\x1d\x57\xab\x9e\xc6\x0a\xd5\xf4\x8a\x0a\x41\xe6\x34\xd9\x55\xf6\x60\xd9\xe0\xfd\xc8\x48\x2b\x67\x4e\x2a\x4b\xca\xeb\xe5\xe7\x60\x5d\x69\xa3\x30\xc6\x40\x5f\x0c\xa5\x3f\x8e\xb8\xa5\x85\x86\x92\xb1\xad\xed\x6e\x4d\x71\x25\xec\x76\xa5\x5f\x11\xf0\x76\xea\x75\x41\x04\x2c\x48\xa6\xc7\x0e\x25\x5b\x55\x8a\x2f\xc3\x0a\x4e\x86\x51\xe1\x96\xbf\xfd\xbb\xbf\x72\x41\x35\x14\x6d\x48\x89\xd4\x2a\x7d\x97\xe3\x45\x66\xc6\x68\xab\x0b\x2b\x5a\x74\x8c\x13\x8a\xde\xb8\xa8\x34\x90\x6e\x46\x77\x67\x2e\x77\x67\x86\xf6\x7e\xe4\x28\xe4\x79\x2a\x3b\x87\x6c\xe0\xaf\x92\xb9\xdb\x30\x50\x78\x21\xb9\x9b\x92\xb6\x77\xac\xa6\x0b\x94\x65\xa9\x7a\x43\x72\x51\x01\xc9\x32\x73\x86\x95\xb4\x87\x86\xe7\xe1\xee\x94\x72\x64\xba\x9e\xe2\x4d\xe4\x91\x11\xe2\xd7\x44\x2e\x92\x7d\x03\xdd\xae\x60\x65\x3e\xf2\x1c\x0a\x91\x28\xf9\xe8\xdc\x33\x82\x30\x49\x13\xdb\x76\x44\xee\xd9\x1b\xdd\x86\x58\x7b\x52\xcf\x25\x60\x4f\x23\xbd\x20\x67\x0f\x68\xb5\x12\x69\xa8\x56\x54\x52\xc5\x17\x30\x7c\x40\x4a\xbc\xc8\xf5\x3d\x56\xe5\xd7\xfa\xca\x98\x6e\x43\x39\x39\xad\x0a\xaa\x6f\x32\xb4\x93\x64\x4c\x4c\xf1\x22\xfe\x12\xc4\x52\x48\x5a\x8c\x40\xa8\x52\xf1\x9c\xdd\xd3\x7c\x69\x99\x0e\xd9\x08\xa2\x45\x25\xe4\x19\x72\x74\x64\x04\x68\x67\x05\xb1\x9b\xca\x56\x1b\x0f\x46\x6e\x8f\xcf\x4c\xb3\x19\x7c\x62\x59\xee\x1b\x22\xae\x39\x9d\xb1\x27\x37\xe3\x08\x22\x3c\x95\x91\xf6\xc8\x1d\x1e\xe7\xba\xf9\x6c\x3c\x8e\xe0\xff\x38\x4a\x20\x57\x06\x8d\x93\x82\x0d\xcf\xd3\x6b\xb4\x4e\x1c\xb4\x83\x6b\xbc\xd0\xb8\x68\x42\x73\x95\x17\x3d\xcb\x1e\x8f\xc3\xe4\x57\xf5\x9d\x87\xe8\x55\xa5\x37\xd2\x0b\x6f\xeb\xea\x7b\x45\x10\x1d\x0c\x42\x40\x8f\x15\xbf\x1f\x81\x0e\x99\x83\xd1\xf4\xe8\xf8\xe1\xa5\x3c\xae\xed\x4d\xfd\x96\x21\x09\xa3\x36\x6c\x8b\xc5\x63\xc1\xe1\xbe\x50\xb0\x5a\xe1\x15\xdf\x4d\xe7\xc7\x20\x8d\x6f\x55\x04\xd0\x1a\x1b\x08\x89\x95\x19\x7d\xda\x1e\xf1\xa5\x1d\x63\xb2\xfb\x9b\x5e\xc5\xae\xe4\x3e\x1a\x1b\xea\xbf\xc1\x8e\x71\x3d\xd7\x7b\xbd\x0c\xbf\xc9\xd9\x0f\x86\x8d\x8d\x05\x19\x4c\xab\x7a\xf9\xe6\xe6\xbb\xb8\x19\x81\xdf\xff\x05\x11\x14\xc5\x07\x86\x8f\x6d\xd7\xd6\x3a\xd8\xc6\xaa\x6b\x97\x76\x63\xc4\x86\x32\x3d\x05\x00\x5b\xd9\xfd\x60\x33\xc1\x6f\x6d\xdb\x76\x37\x3b\xbf\xdb\x9f\x4e\x5c\xf5\x66\xfa\x77\xee\x3b\x9c\xfe\xa9\x76\x7e\x28\x90\x6e\x2a\x09\x36\x89\x68\x5f\x9b\xe2\x88\x9d\xeb\xf5\x2a\x0c\x94\xe4\xb1\xfb\x38\x21\x82\xc2\x09\x9e\xe1\x37\x37\xdf\x8d\x54\x72\xc9\xa8\xd6\xc4\x35\xe3\xf9\x2d\xd1\x2e\x38\x3b\x87\x13\x1c\xa0\x1f\x55\x22\xc1\xb8\x07\x8e\x9c\x9f\xe3\x1b\x13\x60\xb8\x90\x4f\x36\x35\x7a\x8b\xf6\xed\x54\xd5\xc1\x37\xdc\x84\x6a\x90\x1d\xed\xc1\x95\x15\xd4\x4d\x9e\xab\x76\xa3\xe7\x68\x86\x16\x86\x80\xaa\x41\xd5\x6d\xcd\x57\xa3\x96\x54\x78\xc7\xa8\xbd\xc2\x9a\xb0\xbe\x03\x8a\xb6\x82\x09\x77\xa4\x00\xaf\x2a\x69\xee\xf0\x22\x48\x84\xa5\x24\xc5\x82\x3c\x50\xb0\xdf\xe6\xd8\x6d\x92\xa8\x79\x26\x2a\x5b\x65\xae\xb1\xa9\x1b\x3b\x28\xf9\x2d\x6a\x78\x23\xda\xc4\xf7\x89\x2d\x68\x52\xb6\x07\xae\x6a\xe9\x02\xd5\x2e\xb5\xe7\x5f\xb2\xa3\xdc\x29\x5c\x93\x5a\xee\xd2\x4e\xa7\x93\xbd\xeb\x24\xc3\xfa\xc0\x8f\xf8\xf4\x74\x32\x19\xb7\x1d\x97\x30\x0f\xb0\x0e\x7f\xb2\x84\xb2\xb3\x78\x4c\xe4\xd7\xcf\x23\x3b\x9d\xa1\xf3\xbe\x09\x72\x15\xd2\x1a\x25\xca\x50\x79\xcc\x5e\x81\xbd\x19\x92\xea\x15\x36\x3b\x23\x52\x9b\xfe\x95\x09\x47\x69\x6b\x6c\x33\x24\x65\xa3\x34\x66\x1a\x3b\x5a\x87\x67\x5a\xdf\x67\x33\x24\x65\x9a\xd1\xf1\xd5\x66\x9e\xc9\x92\xb8\x37\x68\x50\x13\x15\x0e\xf8\x7f\x5f\x7e\xe9\xa7\x8b\x46\xf0\x68\x72\x22\x2a\xe0\x59\x73\x8a\x46\x0e\x51\xe7\x81\x94\x0a\x96\x32\x0a\x14\xa3\x12\x29\xf1\x2b\x0b\x78\x7e\xf4\x2a\xfc\xf3\x67\x02\xd8\x50\x68\x17\xa6\xc5\xd1\x22\xb1\x37\x64\x66\xcb\x43\x7a\x42\x66\xbd\x64\xdf\x1d\x31\xd3\x93\x1e\x1f\x32\x3b\x26\x02\x76\x8e\x5d\xd2\xcb\xd7\x5f\x0d\x06\xc1\x30\x8a\xdd\xc6\xc6\x91\x31\x14\x09\x00\xe9\xb8\xf4\xa3\x5e\x1b\xe6\x4f\x1f\x2c\x0c\xa8\xf5\xc4\xd3\x1c\x50\x03\x4e\xc3\xe3\x5e\x2e\x02\x3e\xe9\x24\x3e\x5e\xff\x62\xe7\x14\xb3\x78\x33\x13\x91\x8c\x20\xf2\x78\xe6\x0c\xbe\xf8\x2c\xfb\x22\x1a\x75\xe6\x70\x73\xa3\x39\x82\x0b\xde\xc7\xcd\xe1\xd1\x71\xbd\xc1\xb0\xde\x50\x54\x6f\x1d\x1e\x1e\xd3\x13\x75\xf2\x6c\xff\x26\xf8\x44\xb1\x0b\x36\x9d\x3e\x6f\x6b\xa0\x83\x6e\x5c\xc6\x17\x40\x97\xe5\x91\x02\xc8\xf5\xf4\x0c\x83\x2d\x93\xe0\xd4\x88\xaa\x03\x4c\xa8\x9d\xb1\x20\x17\x3d\x0f\x9d\xb7\x6b\xc2\x41\x40\x0e\x0f\x98\xab\xef\x4d\xe0\xc9\x7f\x20\x9c\x55\x8d\x00\x54\x27\x68\x85\xa1\x5e\x0e\xc6\xe3\x6d\xe5\x1b\xa3\x1d\x31\x02\x15\x30\xd3\x39\x6d\x3c\x24\x89\x15\x05\x07\x2c\x6b\xb7\x2c\x50\x5d\x06\x4a\xc8\x5c\xe8\x08\x3f\x1a\xf5\x40\x72\xdc\x8b\x28\x32\x91\x49\xdd\xb4\xfb\x7b\x01\x1b\xc4\x30\xb3\x69\x26\xb7\x11\x4e\x4e\x3f\x84\xe1\x86\xfa\x1a\x74\x8d\x37\xfb\x0d\xfb\xde\x3a\x2a\x71\xab\x64\x36\x5e\xaa\x97\x0b\x0c\xfc\x92\x82\x4a\x4c\xdb\xe0\xcd\x6f\xb9\x40\xb4\xad\x27\xa7\x6a\xa8\x6c\x52\x69\xe3\x5a\xa4\xa0\x2a\x3c\xd4\x89\x75\xe2\x2c\xb7\xba\xdd\x05\x3b\x6d\xc7\xf5\xe6\x2d\x52\x34\x19\xa3\xb1\xc2\xbf\xcf\xdb\x43\x5c\x76\x27\x0f\x36\x65\x10\xca\xb9\xaa\xc9\xb3\xf2\x0b\xd9\x9e\x5e\xbd\xca\xcf\x3e\x44\xda\xf8\xb4\x12\x54\x53\xe5\x86\x3c\x1a\x23\xb3\xb1\xbf\xdd\x3b\xf7\x02\x7f\x6c\x50\x4e\x31\x5e\x97\x74\xaa\xe0\xa2\x37\x62\x8d\x02\x4e\x16\xb5\x49\xcf\x9a\x0d\x96\x45\xdd\x25\xe7\x50\xec\x1a\x2c\x1d\x4f\xe1\xb0\xb0\x31\x9b\xa9\x03\x61\xba\xdd\xd0\x9a\x62\x8c\xd1\x0e\xfb\x56\xbc\x20\x9e\x44\x6d\x21\xc7\x17\xf6\xab\x7b\xa6\xe7\xd7\x15\xf6\x82\xc8\x6e\x7f\x94\xd8\x11\x7a\xa9\x6f\x23\x17\xa2\xfe\xa5\x8b\xc7\x9b\x8a\xec\x77\x9a\x85\x53\xd7\xe3\x82\x14\x34\x6f\xeb\xd0\x0d\x1f\xe4\xc2\x3d\x1b\x83\xcf\xbb\x9c\x31\x34\xde\xe6\x43\x0c\x1a\xe9\xf3\x2c\x8b\x77\xa0\x32\xf2\x3e\x55\x15\x3f\x60\xcc\xab\xcd\x9b\x74\xb8\x11\x71\xa2\x39\x06\x8a\x67\x50\x71\x88\x51\x5f\x6e\x11\x2d\xd9\xa4\xab\xc5\x1f\x21\x8d\x4f\xf0\x62\x42\x53\x62\xb5\x9d\xb5\x6a\x2a\x6e\xa2\x2c\xea\x9b\x85\x4d\x81\xe2\x14\x21\x0b\x14\xee\x27\x63\xe7\x9a\x6d\x6d\xdc\xad\x24\xfc\xf2\xa9\xee\x22\x62\x67\x75\x5b\xc1\x66\x83\x74\xee\x9c\x98\xcd\xa5\x06\xb2\x30\x77\xeb\x36\xea\x4d\x86\xa0\x19\xba\xf5\x1c\xc6\xde\xf3\x68\x8e\xe3\x8c\xb0\x5c\x17\x04\xd9\xd3\x38\x04\x3f\xea\x6e\x8c\x11\xad\x56\x12\xc5\xb2\xa8\x93\xf0\xa8\x5d\xd7\x10\x92\x1f\x43\xdc\x75\x1f\xe5\x34\x93\xd8\x2e\xab\xd5\xf8\xe4\x0f\xff\xf2\xd7\x3f\xfc\xfe\x9f\x7e\xf8\xc7\x7f\xfd\xe1\xef\x7e\xf7\xc7\x7f\xf8\x9b\xff\xf8\xb7\x7f\xff\xc3\xef\xff\xf6\x87\x7f\xfe\xdd\x1f\x7f\xf7\xf7\x5b\x1b\xbc\x31\xff\x61\xdb\xe8\x93\xfa\x23\x98\xfe\x64\x08\xf4\xd6\x61\xf0\x57\xf6\x11\x13\xed\x9b\xa7\x0d\x21\x38\xa2\x7a\xd2\xcd\x3d\x99\x87\xf5\xba\x2b\x20\x2b\xcc\xa3\x0d\x65\xd6\xb6\xa5\xa4\xea\x3e\x2c\x25\x5b\xb0\xb5\xd3\x62\x7a\x88\xb1\x20\xa1\xb3\x6f\x4e\x20\xe8\xc3\xdc\x95\x08\xa6\xcd\xf2\x8f\x1d\x88\x56\xb5\xb1\x0f\x90\x32\x5f\x53\xb9\x5a\xd9\xbe\xe6\x2e\x6d\xf2\x4c\xf5\xf8\xe4\x1c\xda\x57\x7f\x49\x79\xa5\x5c\x73\x4f\xd4\xed\x3c\xae\xbd\x80\x0d\xc9\x87\x4e\xec\xd1\x67\xb6\x77\x12\x7b\x68\x1d\x0b\xed\x3a\xb8\x5b\x2c\x65\x80\xed\x3b\xbb\xfd\xec\xf9\x53\x12\xf7\x60\xbc\x3c\x5e\x47\xfc\xb6\x10\xf4\x59\x7a\xe3\xb1\xf3\x64\x1e\x54\x2c\xb8\xb5\x44\xd4\x84\x70\x0e\x06\x1d\x6d\xc4\xc6\xca\x68\x33\x7c\x5d\x7a\xd6\xa3\x8a\xa0\x46\x73\x2a\xf5\xe7\x1d\x7d\xeb\x04\x6d\xe1\xae\x71\x22\xab\x1b\x2a\x3f\xd6\x1e\x3d\xc4\x48\x39\xdd\x93\xda\xee\xa6\xd8\xc7\x27\xf0\xba\xcc\x97\xea\x53\x51\x88\xb0\xea\x2d\x4c\x8a\x4d\x2c\xd0\x86\x83\x89\x8b\x5f\xe1\x58\xcc\x7a\xe0\xed\x4a\x45\xd9\x4a\x2e\xfc\xb2\xd3\xaa\x60\x12\x2d\x9c\xac\x51\xdf\xb3\x41\x4f\x99\x95\x54\x08\x38\x19\x9b\x19\xd5\xf2\x7b\x45\xd3\x1e\x3b\xa5\x95\x58\x9d\xfd\x33\x07\x63\xd3\x09\xbd\xda\xef\x82\xb6\x3e\xe8\x60\xd6\x78\x38\x6d\x3c\x98\x37\x56\x47\x04\x6f\x6d\x38\x33\xda\x61\xe8\x4b\x8a\x8f\xb7\xa6\xb5\x53\xa7\x82\x06\x18\xe8\x41\x11\x04\x9f\x3d\x44\x23\x50\x94\x6d\x6d\xea\x17\xd8\xc1\x85\x41\xdc\xa7\x3c\x63\xac\x4b\x14\x58\xa4\xfe\xa2\x99\xcd\x28\x8f\x11\x57\xbf\xb4\x1a\xfc\xe2\x05\xe3\x11\x07\xdb\xdf\x37\xdb\xfb\xc5\x13\xf7\xb9\xd3\x43\xb3\x83\xaf\x9e\xdf\xdd\x7e\xcc\xcd\x0d\x5b\xde\x86\xe3\x41\x47\x54\xdd\xb3\xb9\x07\x8a\xb8\x20\xa2\xe5\x08\x04\x7f\xd0\xcf\xee\xf3\x75\xc6\x87\xdc\xfe\x72\xde\xa1\x57\x34\xfb\x2e\x5b\xde\x36\x13\xc7\x00\x88\x03\xaa\xeb\x86\xde\x36\x13\x31\xe5\x6c\xa2\x3f\x36\xb3\x75\x9f\xd2\xff\x96\x07\xfa\x95\x7d\x7d\x50\x24\xf3\x07\xbf\xa7\x02\x42\xaf\xc4\x5c\x2d\x36\xd9\xcb\x59\x86\x43\xd0\xb5\xed\x47\xdc\xbb\xab\xe8\xb1\xc1\x6a\xd5\xf9\x1e\x06\xb9\xa7\xde\x86\x1d\xfa\x8d\x19\x1c\x72\xc0\x37\x66\x5a\xc8\x7b\xaf\xb9\x74\xbe\xa5\x9b\x3a\x02\x9b\xcb\x03\x89\xbf\xd7\x03\xdf\x96\xd9\x0d\xc1\x14\x41\xfc\xf7\xfb\xc4\x4c\xbb\xae\xbd\xf7\x56\x0d\x93\xba\x3d\x3e\x83\xee\x9a\xf1\xb6\x87\x5b\xf6\x51\x9f\x97\xc1\x8d\xf2\x7a\x18\x7d\x35\x32\xf7\xe5\x2f\xcb\xde\x3e\x5e\x96\xaf\xed\xb1\x51\x55\x74\xec\xf7\x67\xbc\x5d\xf6\x2e\x16\x1c\xff\xfd\x19\x0f\x8e\x2b\x51\xde\x4f\x5c\x6f\x79\x00\x70\xd2\xa5\x6e\x4b\xda\xad\xaf\xca\x98\x99\x36\x33\x1b\x43\xf3\x78\xb1\x75\x24\xd9\x6a\xd5\x25\x7b\x7f\x8e\xa7\x10\x73\x23\x00\xaf\xc4\x7c\x38\xa4\xbe\x5d\x6d\xda\x77\xd9\x72\x47\xcd\x7a\x21\xe6\xe9\x4b\xa5\xf7\xfa\xab\x2c\xfb\x8a\x02\x2c\x2f\x0f\xdc\xdc\x34\xe4\x31\x71\xd7\xb6\x4c\xae\x87\x5f\x36\x43\xa3\x6a\xc1\x07\x94\xc9\x61\xd8\x0e\xaa\xc9\x6f\xb0\xfc\xc3\x44\x3e\x85\xdb\x2f\xfb\x7d\x8f\x2b\x52\x2e\x75\xb6\x07\x73\x80\xb6\x1c\x44\x7f\x07\xb0\xc1\x28\x05\xa6\x5c\x10\x3d\x14\x80\xa5\x60\x98\xf0\x33\x77\x89\x8c\x50\x1b\xc4\x7b\x20\x2f\x87\xf3\x1a\xb3\x7d\x04\xe5\xb4\xa3\xc1\x5c\x46\xa2\x3f\x14\x6a\xe9\xdc\xe1\x41\x3d\x3f\x2e\xc1\x9f\xd8\x4c\x84\x33\xb4\x60\x93\x63\x2a\x7a\x70\x45\x26\x3a\x6e\xdb\x8e\xa8\xe8\xf1\x46\xef\xf9\x9a\x04\x2e\xff\xbf\xfa\x6b\x12\x2d\x76\xdb\x56\xc4\xa0\x02\xba\x6e\x26\x39\x13\x0b\xca\x8f\x29\xd8\x19\xfe\x94\x84\x2f\x10\x7c\x5b\xc0\x93\x3d\xb6\x88\x64\x4b\x93\xef\xae\x22\x59\x19\xfb\x7f\x78\xd8\xf9\x06\x0f\xbd\xa2\x8f\x6e\x75\xa6\x8e\xc4\x7d\x2b\x22\x08\x7a\x8d\x15\x5f\x7b\x44\xa6\x63\xcf\x51\xf0\xeb\x43\x5e\xd2\x7d\x3a\x63\xbb\x30\x64\xb3\x2e\xa4\x53\x87\xeb\x04\x8a\x3d\x19\xbd\x55\x20\xbd\x22\xd7\xb8\x52\x1e\x22\x1b\x55\x1a\xc7\x7f\xef\x01\x17\x36\x94\xd0\x1e\x12\xfb\x2e\x8f\x3d\x40\x95\x5e\xd9\x77\xd8\xf7\x1e\xac\x5e\xf8\x93\x7d\xd9\x61\x00\xe5\x03\x54\x15\x0c\xeb\x2a\x2c\xdf\x3b\x40\x0d\x51\xce\xed\x7c\x5b\xea\x68\x3c\x86\x6d\x8d\x34\x1e\xc3\xda\x83\x6e\x07\xa7\xaa\x86\xdf\x0e\xfe\xfc\xf3\xed\x77\x29\x66\x51\xd5\xa7\x27\xdf\x33\x73\x33\xed\x7d\x34\x30\x8d\xcd\x2c\x6f\x03\xb1\x05\xc4\x16\x91\x9e\x6c\x6c\xef\xf7\x2a\x0e\x55\xca\x7d\x69\xd2\xdd\x5a\xb9\xff\xc3\x50\x3e\x0f\x1b\xdd\xdc\xaf\x9a\x4d\xc6\x6e\x87\x66\xee\x5e\xf9\x71\xff\x07\x3d\xa6\x6a\xc8\x44\x48\x94\xeb\x30\xa0\xac\x71\xab\xad\xa4\xbf\x12\xf3\x4d\x5d\x7d\xaa\x70\xfd\x69\x14\xf6\xa1\x36\xd6\xbe\x5c\xa5\x25\xf9\xa0\x82\x76\x13\xa9\x13\xe1\xc0\x25\xde\x36\xfc\xe7\x00\x28\x39\x2c\xcd\x50\x6a\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 26964, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x2c, 0xfb, 0xd0, 0x4c, 0xde, 0x28, 0x43, 0x54, 0xd, 0xef, 0x47, 0x92, 0xf, 0x80, 0x30, 0xf9, 0xa2, 0x7, 0xd6, 0x6a, 0x3e, 0x92, 0x21, 0xc7, 0xe1, 0x4c, 0x5, 0x87, 0x60, 0x9a, 0x20, 0xee}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27216, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xdc, 0x37, 0xc8, 0x1, 0xf8, 0xe9, 0xea, 0x1d, 0xa2, 0xc8, 0xa5, 0xb5, 0x6b, 0xc0, 0x93, 0x19, 0x8c, 0xc0, 0x39, 0x81, 0xed, 0xdb, 0x5a, 0x3a, 0xc2, 0xe5, 0xc0, 0x82, 0xf5, 0x32, 0x59, 0xc0}}
 	return a, nil
 }
 
-- 
2.43.0


From 4ae2e378811795fc7203bdda85f3fff662aad37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:49 +0000
Subject: [PATCH 15/45] fix: httptransport: the client escapes path parameters

---
 gengokit/httptransport/httptransport.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index 3cb8c6b..903d6ec 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -252,7 +252,7 @@ func NewBinding(i int, meth *svcdef.ServiceMethod) *Binding {
 //     []string{
 //         "\"\"",
 //         "\"sum\"",
-//         "fmt.Sprint(req.A)",
+//         "url.PathEscape(fmt.Sprint(req.A))",
 //     }
 func (b *Binding) PathSections() []string {
 	isEnum := make(map[string]struct{})
@@ -268,11 +268,11 @@ func (b *Binding) PathSections() []string {
 		if len(part) > 2 && part[0] == '{' && part[len(part)-1] == '}' {
 			name := RemoveBraces(part)
 			if _, ok := isEnum[pkg.GoCamelCase(name)]; ok {
-				convert := fmt.Sprintf("fmt.Sprintf(\"%%d\", req.%v)", pkg.GoCamelCase(name))
+				convert := fmt.Sprintf("url.PathEscape(fmt.Sprintf(\"%%d\", req.%v))", pkg.GoCamelCase(name))
 				rv = append(rv, convert)
 				continue
 			}
-			convert := fmt.Sprintf("fmt.Sprint(req.%v)", pkg.GoCamelCase(name))
+			convert := fmt.Sprintf("url.PathEscape(fmt.Sprint(req.%v))", pkg.GoCamelCase(name))
 			rv = append(rv, convert)
 		} else {
 			// Add quotes around things which'll be embeded as string literals,
-- 
2.43.0


From 90530bece21a8b7895059cfde2b8f6ce4e88d71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:11 +0000
Subject: [PATCH 16/45] fix: the member set in a oneof is sent in the query
 string also when it is zero

---
 gengokit/httptransport/httptransport.go                   | 1 +
 gengokit/httptransport/types.go                           | 2 ++
 .../template/NAME-service/baron/NAME.pb.baron.go.tmpl     | 6 +++---
 gengokit/template/template.go                             | 8 ++++----
 4 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index 903d6ec..9cc4014 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -119,6 +119,7 @@ func NewBinding(i int, meth *svcdef.ServiceMethod) *Binding {
 			}
 			option.TypeConversion = fmt.Sprintf(typeConvStr, oneofType.Type.Message.Name, pkg.GoCamelCase(oneofType.Name), createDecodeTypeConversion(option))
 			option.ZeroValue = getZeroValue(option)
+			option.WrapperType = oneofType.Type.Message.Name
 
 			oneofField.Options = append(oneofField.Options, option)
 		}
diff --git a/gengokit/httptransport/types.go b/gengokit/httptransport/types.go
index 5eaf9a4..a8efb47 100644
--- a/gengokit/httptransport/types.go
+++ b/gengokit/httptransport/types.go
@@ -77,6 +77,8 @@ type Field struct {
 	Repeated bool
 
 	ZeroValue string
+	// WrapperType is the struct a member of a oneof is held in
+	WrapperType string
 }
 
 // OneofField contains the distillation of information within an []*svcdef.Field
diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index 2b5a4ba..f81361c 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -676,7 +676,7 @@ func CtxValuesToSend(keys ...string) httptransport.ClientOption {
 			{{- if eq $oneof.Location "query"}}
 				{{- range $option := $oneof.Options }}
 					{{if or (not $option.IsBaseType) $option.Repeated}}
-						if val := req.Get{{$option.Name}}(); val != {{$option.ZeroValue}} {
+						if _, ok := req.{{$option.CamelName}}.(*{{$option.WrapperType}}); ok {
 							tmp, err = json.Marshal(req.Get{{$option.Name}}())
 							if err != nil {
 								return errors.Wrap(err, "failed to marshal req.Get{{$option.Name}}()")
@@ -685,8 +685,8 @@ func CtxValuesToSend(keys ...string) httptransport.ClientOption {
 							values.Add("{{$option.QueryParamName}}", strval)
 						}
 					{{else}}
-						if val := req.Get{{$option.Name}}(); val != {{$option.ZeroValue}} {
-							values.Add("{{$option.QueryParamName}}", fmt.Sprint(val))
+						if _, ok := req.{{$option.CamelName}}.(*{{$option.WrapperType}}); ok {
+							values.Add("{{$option.QueryParamName}}", fmt.Sprint(req.Get{{$option.Name}}()))
 						}
 					{{- end }}
 				{{- end }}
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index cfced2b..87507a7 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -1,6 +1,6 @@
 // Code generated by go-bindata. DO NOT EDIT.
 // sources:
-// NAME-service/baron/NAME.pb.baron.go.tmpl (27.216kB)
+// NAME-service/baron/NAME.pb.baron.go.tmpl (27.244kB)
 // NAME-service/cmd/NAME/main.go.tmpl (1.381kB)
 // NAME-service/cmd/NAME-client/main.go.tmpl (2.923kB)
 // NAME-service/server/endpoints.go.tmpl (230B)
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x5b\x6f\xe4\x38\x76\xf0\xb3\xf4\x2b\xce\x08\x73\x91\xfc\x95\x55\xf3\x7d\xc0\x17\x6c\xdc\x70\x80\x6e\xb7\xe7\xb2\x3b\xee\xf6\xda\xee\x1d\x20\x8d\x46\x2f\xab\xc4\xaa\xe2\x5a\xb7\x26\x29\xdb\xb5\x95\x7a\xc9\xcb\x06\x48\x80\x00\x79\xca\x43\xb0\xc8\x53\x5e\x83\x3c\xe7\xf7\xec\x04\xfb\x2f\x82\xc3\x9b\xa8\x2a\xa9\x2e\x3d\xb3\x41\x10\xa4\x81\x1d\x97\x28\xf2\xf0\xf0\xf0\xf0\xdc\xa9\x1d\x8f\xe1\xa2\xca\x28\xcc\x69\x49\x39\x91\x34\x83\xc9\x12\x26\x84\x57\x65\x0a\x2f\x5f\xc3\xab\xd7\x77\x70\xf9\xf2\xdb\xbb\x34\x1c\x8f\xe1\x86\xf2\xa6\x2c\x59\x39\xd7\x1d\xe0\x91\xe5\x39\x54\x0f\x94\x3f\x72\x26\x29\xc8\x05\x13\x30\x63\x39\x55\x9d\x7f\x45\xb9\x60\x55\x79\x06\xab\x55\x6a\x7e\xaf\xd7\xde\x0b\x78\x49\x24\xf5\xdf\xe2\xf3\x7a\x1d\x86\x35\x99\xde\x93\x39\xc5\x37\xd7\xfa\xe7\x2b\x52\xa8\x37\xe3\x31\xdc\xd9\x39\x60\x5a\x95\x92\xb0\x52\x40\x41\xe5\xa2\xca\x04\xc8\x0a\x0a\x72\x4f\x81\x95\x19\x7b\x60\x59\x43\x72\xa0\x65\x56\x57\xac\x94\x02\x66\xbc\x2a\x40\x50\xfe\xc0\xa6\x54\x8c\x10\x0d\x4e\x3f\x34\x54\x48\x20\x65\x06\x9c\x8a\xba\x2a\x05\x05\xb9\xac\xa9\x82\x84\x5d\x71\x45\x95\xa0\x2d\x94\x11\x10\x01\x8f\x34\xcf\xf1\x2f\x2d\xa7\x55\x46\xb9\x40\x00\x08\x2f\xa3\xe6\x79\x56\x71\x33\x50\x41\x1b\xa9\x06\x82\x94\x9a\x41\xd5\x70\x10\x4d\x5d\x57\x1c\x29\x2d\x39\x29\x05\xfe\x46\xcc\x18\xc9\xd9\x6f\x89\x64\x55\x89\xd0\x66\x15\x2f\x88\x14\x69\x18\xb2\x42\xf5\x88\xc3\x20\x9a\x2c\x25\x15\x51\x18\x44\xb8\x76\xfa\x24\xf1\xa7\x42\x83\x95\xf3\xf1\x6f\x44\x55\x62\xc3\xac\x50\xed\xac\xd2\xff\x1d\xb3\xaa\x91\x2c\xc7\x87\x92\xca\xf1\x42\xca\xda\xfe\x6e\xb8\x6a\x16\x92\x4f\xab\xf2\xc1\xfc\x64\xe5\x5c\x44\x61\x18\x44\x73\x26\x17\xcd\x24\x9d\x56\xc5\x78\x5e\x9d\xde\x33\x39\xc6\xff\x59\x5a\x44\x61\x40\xca\x65\x3d\x81\x68\x5e\x55\xf3\x9c\xa6\xf3\x2a\x27\xe5\x3c\xad\xf8\x7c\x5c\xf3\x4a\x56\x93\x66\x36\x56\xeb\x1f\xdf\x97\xd5\x63\x39\x56\xbd\xa3\x30\xc8\x1a\xae\x16\x79\xc4\xd0\x76\x48\x14\x06\xb4\xa8\xe5\x31\xf3\x9a\xfe\x51\x18\xcc\x18\xcd\xb3\x82\x88\xfb\x23\x46\x7b\x63\xa2\x30\x10\x92\x37\x53\x79\xc4\x70\x3b\x20\x0a\x03\xc9\x0a\x2a\x24\x29\xea\x23\x86\x7b\x63\xa2\x30\x78\xe4\xa4\xae\x29\x17\x47\x00\x68\x87\x6c\x6f\x29\x67\x79\x4e\xc6\x45\xf3\x14\x75\xdf\xd4\xf7\xf3\x31\xe5\xbc\xe2\x8a\xd3\x76\x4c\xe4\x38\x4f\xb5\x58\xf6\xdb\x31\x40\xfd\x40\x44\x56\xab\x53\x60\x33\xa0\x1f\x20\xbd\xa8\xca\x19\x9b\xa7\x77\xee\x24\x44\x24\xcf\x23\x88\x4a\x22\x45\x04\xeb\x75\x17\x37\x6c\x3d\x65\x95\xfa\x9b\xce\x91\xc3\x11\x14\x2d\xb3\xf5\xfa\x20\xa8\x73\x5e\x4f\x2d\xd4\x2d\x3c\xd5\xcb\xc1\x37\xe3\x82\x4a\x92\x11\x49\x36\x27\x3d\x78\x4a\x84\xdf\x9e\xf8\x81\xf3\xe5\x3a\x58\x74\xbc\xb9\xf0\xec\x1e\x01\x00\xbb\x47\x07\x91\xa5\x25\x36\xfe\x3a\x62\x0a\xec\xde\xc1\x31\x09\xc3\xf0\x81\x70\x88\xc3\xe0\x3d\x9c\xc3\xac\x90\xe9\x6d\xcd\x59\x29\xf5\xb3\x12\x60\xe9\x45\x55\xd4\x84\x53\xdd\x64\xa4\x4f\xfa\x5c\x56\x4c\xb7\x74\x96\x99\xbe\xa2\x8f\xb7\x94\x3f\x50\xae\x5f\x6a\x69\x96\xbe\xaa\xea\x8b\xbc\x12\x6d\x6b\x7a\x51\xd5\x4b\xfd\xa0\x99\x37\xfd\x9e\x93\x3a\x0c\xc6\x63\x30\xfb\x69\xd9\x50\xcb\x78\xec\xaa\x44\x52\xfa\xbc\x54\xe3\x5a\x21\x93\xbe\x34\x3f\xb1\xd9\x88\x8f\xf4\x12\xff\x62\x83\x3d\xd2\xe9\xad\xfa\x81\x4d\xde\x31\x4d\xef\xec\x6f\x7c\xd1\x1e\x3f\xec\xcd\xca\xf9\xaf\x48\xde\xa8\x75\x7b\x72\x25\xfd\x0a\x7f\x5f\x11\x71\x1f\x26\x61\x38\x3e\x39\xe8\x1f\x5c\x5a\x9d\x04\xb6\x69\xff\xbf\xb1\xd2\xa0\xdf\x96\x40\x50\xdf\x3c\x50\x3e\x02\x26\xbf\x10\xd0\x08\x3a\x6b\x72\xa5\xa6\x66\x4d\x39\x45\x2a\x08\x90\x0b\x22\xa1\xa4\xa8\xa5\x2a\xa8\x6a\x65\x1b\x40\x85\x63\x6b\xca\x4f\xad\x1a\x40\x80\x13\x22\x98\x48\xe1\xab\x8a\x03\x7d\x22\x45\x9d\xd3\x11\x2c\xab\x06\x0a\x36\x5f\x48\xa8\x89\x40\x15\xe9\x21\x2c\x2b\x20\x6e\x22\x3d\x4f\xcd\xab\xac\x99\x52\x81\xe0\x48\xa9\x38\x20\xfd\x86\x94\x59\x8e\x38\x3e\x32\xb9\x00\x4a\xa6\x0b\xa3\xe9\x21\xb6\xb3\x27\xf0\xc8\x38\xcd\xa0\xa9\x11\x49\x02\xa2\xa6\x53\x36\x63\x53\xa8\x89\x5c\xa4\x10\x7f\x2b\x11\x20\x13\x50\xf3\x6a\x42\x26\xf9\x12\x08\x14\x4c\x48\x6d\x25\x40\x46\x05\x9b\x97\x38\x94\x95\x0f\xd5\x3d\xaa\x7b\x0a\xc8\x6c\x6c\x4a\x9d\x55\xa1\x50\xa4\x08\xa7\x5d\x81\xe6\x01\x60\x2d\x25\xd3\x24\x1c\x8f\x1d\x75\xa7\x39\xa3\xa5\xec\x52\x57\x56\x30\xad\xf2\x9c\x4e\xa5\x67\xa0\xe4\x4b\x98\x56\xa5\x06\x47\x33\xcf\x5c\x61\x25\x2e\x08\x01\x0a\x56\xce\x73\x6d\x98\x68\x5a\x31\xa4\x70\x41\x11\x0f\x1f\x5f\x56\x4a\xca\x67\x64\x4a\x87\x76\x02\x81\xb9\xc9\xfa\x8d\xa4\x06\x27\x6b\xad\x12\x65\x2c\xe0\x01\xbc\x30\xeb\x99\x56\xc5\x84\x95\x8a\x4e\x85\x41\xd1\xdb\xd8\x91\x31\xa5\x64\xc3\x4b\x60\x12\xe9\x8a\x08\x4e\x49\x9e\x53\x8e\x16\x13\xb1\xc8\xa6\xa1\x5a\xce\x16\x41\x57\x61\xf0\xa6\x74\xeb\xa3\xd9\x6a\x95\xda\x11\xda\x04\x34\x92\x60\xb5\xe2\xa4\x9c\x53\xf8\x94\xc1\xd9\x39\xb8\x3e\x57\x7a\xcb\x50\x8e\xad\x56\x9f\x32\x33\xc6\xce\x02\x00\x6e\xa9\xa9\x6d\x0c\x57\x2b\x2d\x5c\xb5\x75\x69\x9b\xc5\xfe\x29\x90\x81\x21\xf6\x16\x91\x80\x37\x69\x3c\x95\x4f\x60\xac\x34\x54\x0d\xf8\x77\x84\x0c\x73\xb2\x5a\x7d\x5d\x21\x62\xf0\x29\x4b\x6f\xb4\x09\x7a\xb7\xac\xed\x02\x13\x88\x37\x7a\x68\xc3\xd4\xeb\x32\xd2\x02\x2e\x81\x55\x18\x58\xbb\x55\xb5\x21\xa2\x34\xed\x59\x39\x22\x83\x93\x27\x61\x80\xca\x8a\x73\xf8\xe4\x1c\x4a\x96\x23\x84\xc0\xec\x57\xc9\x72\x05\x24\x0c\xd6\xa1\x6d\xb3\xd0\xd3\xbd\x38\x25\x23\x84\x17\xae\x1d\x39\x91\x98\x57\xe4\xde\x23\x4f\xb8\x5a\xa9\x83\xfc\xa9\xa4\x88\x68\xba\xc6\xce\xa7\xe0\x53\xf9\x53\x49\x87\x08\x8d\xb0\xfa\x56\x26\x90\xe8\x92\xf6\xb2\x49\xb2\xbd\xdd\xb0\x72\x8b\xc3\xfd\xeb\xdf\x25\xeb\x18\xb8\x13\xb5\x5a\x27\x10\x5b\x62\xf8\xcd\x8a\x62\xde\x76\x04\x9c\x7e\xc0\x85\x18\x08\x69\xbc\x6f\xb7\xc3\x20\x78\x70\x7b\x27\xfc\xbd\x43\xd4\x14\x2a\x49\x18\xf4\xec\xda\xf6\xb6\xe1\xbe\xd9\xd6\x07\xbd\x1d\x01\xb2\x75\xab\x9b\xfd\xbd\x41\xe5\xf8\x3c\xcf\x2f\x9f\xa6\xb4\x96\x4a\x4f\x09\x2d\x62\x1d\xa5\x94\x86\x42\x97\xc5\x9c\x4d\xfb\x42\x80\xda\x46\x82\x50\x3c\x9b\xc0\x91\xfa\x8a\x65\x59\x4e\x1f\x09\xd7\x5e\xe0\x1b\x61\xfd\x42\x74\x82\xea\x3a\x5f\xa2\x88\x41\xb1\x29\x11\x78\xe1\x7a\x2b\xaf\x8b\x3e\x50\xbe\x74\xdb\x86\xe7\x05\x25\x88\x71\xdb\x14\xbc\xd7\x35\x6a\x0d\x92\xe7\xcb\x91\xeb\x27\x60\x4a\x4a\x98\x50\xa5\x6b\x68\x86\xc3\x26\x4b\x28\x91\xec\xb2\xc2\x76\xfa\x34\xcd\x9b\x8c\x66\xda\x0b\x9c\x50\x44\x01\xd7\x5c\xd3\x2c\xdd\xa2\x46\xdc\xe2\x34\x82\xe8\x56\x12\xd9\x88\x68\x04\xd1\x35\x2b\xe7\x51\xe2\xce\xfd\x89\x23\x48\x32\x38\xde\x61\xe8\x51\x65\xd4\x62\x93\xa6\xa9\x50\x66\x81\x62\x1e\x56\x9a\xe6\xb3\x73\x28\x48\xfd\x56\xbf\x7a\xa7\xc9\xbf\x5a\x23\x7b\x6d\x1e\x98\x9e\xd3\x12\x04\x41\xe4\xb1\x51\x74\x06\xab\xf5\x28\x0c\x7c\x33\x72\x1d\x86\x01\xea\xfa\xf7\x88\x0a\x82\xd1\x20\x1d\x5a\x38\x13\x9b\xc1\xfb\x11\x54\xf7\xf8\xda\x22\xf6\x96\x3e\xbd\x7b\x06\x9f\x54\xf7\x88\x6d\x10\xd4\xa4\x64\xd3\xb8\xb5\xf0\x66\x71\x74\x69\x41\xd8\x75\xc3\x17\x9f\x89\x2f\x20\xab\xa8\x80\xb2\x92\x40\x9f\x98\x90\xcf\x40\x50\xea\x6f\xbc\xf3\x29\x95\x49\x8f\x48\x25\x89\xe1\xe7\x8c\xe6\x54\xd2\xd8\x62\xa0\xde\xb5\x0b\x60\xe5\xb4\x45\xdf\xf6\x81\xc3\x09\xc5\x66\x0a\xc4\xf9\x39\x74\x48\xa6\x20\x04\x41\xaf\x28\x85\x73\x0f\xf3\xb8\xb7\x0b\xe2\x1e\xac\x37\x49\xae\x8f\xdd\x77\x64\x42\x73\x9a\xb5\xdc\xa0\x43\x28\x73\x2a\x2d\xef\x22\xbf\x3b\xea\x29\x16\x7e\x5c\xd0\xd2\xbd\xad\x3c\x76\x35\xc0\x34\xd7\x8d\xf4\x29\x33\x07\xa1\xd1\x9d\x41\xc7\x65\x88\x0e\xee\xb0\x29\x1a\x35\x9c\x4d\x95\x99\xd5\x2e\x03\x1e\x17\x6c\xba\x50\x67\x48\xd0\xb2\x0f\x05\xa3\xc9\xcd\x68\x6b\xc7\x54\xdc\xe8\xf1\xed\x55\xe1\x21\x89\x35\x03\x8f\xb6\xa5\x70\x8f\x60\x0e\x87\xd6\xf5\xd1\xb2\x69\x0b\xa9\x91\x59\xa7\xa2\x38\xa7\x53\xca\x1e\x50\x34\x51\xbd\xc4\x6a\xd6\x59\x77\x0a\xb7\x94\x3a\x30\x1e\x14\xf5\xc2\x1a\xa2\x06\xe1\xcb\x27\x44\x14\x39\x32\xa3\x92\xb0\x5c\xa0\x9d\x6c\x8f\x13\x02\xb1\xc6\x2e\xc9\x99\x5c\xa6\xbb\x44\x48\x67\xed\x71\xf1\x23\x28\xfa\xbf\x72\xe6\x7f\x8e\x9c\xe9\x0c\x1b\xc1\x51\x62\xe7\xf0\x00\xc5\xa1\xae\xe7\xd7\x37\xd7\x17\xb8\x4e\xca\x8f\xf6\x3d\xd1\x8c\xf3\x86\x63\xb8\x56\xb4\xc6\x80\xdb\x1f\x20\x0f\x84\xe5\x64\x92\x53\xed\x36\xcc\x6f\xae\x2f\x60\xc0\x19\x30\xc7\xa9\x0b\xd9\x79\x88\xa2\x95\x0d\x23\xa8\x94\xed\x20\xf0\x3c\x74\x62\x31\x8a\xbd\x29\xd7\xa6\x45\x32\x34\x11\x6e\x97\xf0\x3a\x0a\xe4\x89\xb7\xef\x86\x21\x21\xf7\xf6\xbd\x7d\x41\x67\x15\xa7\x31\x62\x7b\x65\x62\x4a\x77\x95\xb1\x3e\x93\x11\xee\xda\xc6\x3c\xe7\x68\x38\xd1\x32\x8b\x3b\xcd\x6e\x3d\x69\x9a\x26\x2a\xd0\xb1\x5a\xc1\x5d\xf5\x5d\xf5\x48\x79\xcb\x88\x48\x2a\xdc\x5c\x6b\x1a\x7e\x8e\x18\xe1\x4b\xca\x57\xe8\x26\xed\xe5\xde\xd5\xca\xc2\x74\x2c\x77\x06\xdd\x65\xb9\x10\x4d\x8c\x0c\xed\x48\xdf\xc7\xa5\x68\x8a\x04\x2f\x55\xa4\x1c\xd7\xef\xf5\x30\xd6\xb1\xea\x70\x59\xf6\x76\x30\xbe\x0e\xf6\xe8\x50\x22\x4d\x53\x1c\x86\xb4\xdb\x60\x7e\x14\xbe\xed\x82\x37\x5d\x67\x67\x9c\xf7\xef\xb7\x33\xf4\xb5\x96\xf3\xe0\xfc\x09\xdc\xd5\x2d\x22\x03\x6c\x50\xd9\xc4\x43\x3c\x83\xde\xb8\x59\x26\x50\x81\xa2\xd6\xc3\x51\x56\xed\x72\x0f\x5f\xe9\x5e\x54\xd5\x61\x8b\x05\x9c\xb4\x53\x25\x2d\xf8\x3d\xfe\x2f\xba\x47\x3f\xad\x03\xfc\x1e\x7d\xa4\xba\xe3\x42\x6d\x51\x52\xad\x42\x71\x93\xef\x54\x1d\xe9\x09\xd7\x1f\xe9\x04\x1b\x0a\x6b\x96\xdf\x4f\xde\xf1\x18\x76\x9d\x0e\x60\x28\x0e\x1d\x4f\xa8\x18\x71\xaa\x07\x98\x1e\x5f\xe1\xfe\xa8\x38\x11\xe6\x74\x28\x97\x42\x87\x91\x8c\x08\xdd\x66\x33\xeb\xed\x62\x30\x07\x63\x55\xfc\x34\xab\x0a\xc2\xca\x5d\x9d\x53\xb8\xe6\xac\x20\x9c\xe5\x4b\x1b\xde\xf2\x63\x61\x5a\x22\xef\x5a\x47\xfc\x7e\x9b\x39\x70\x2d\x37\xf4\x43\xcb\x8c\xca\xed\xf6\x9e\xba\x81\x0f\xe5\x68\x9b\x31\x87\x38\xda\x6e\x27\x3f\xec\xd8\xa6\xcb\xf2\xe0\x6d\xda\x29\xa3\x7a\xf7\x49\x8f\xb0\x5d\x86\x36\x6a\xff\x16\x98\x29\xd4\x86\xed\xd8\xd6\x3a\x5f\x1e\xb4\x4f\x3b\x17\xd2\xb7\x51\x7d\x91\x90\x5d\x3b\x25\x6a\xdc\x2a\x3b\xea\x80\x73\xe4\x6d\x96\xa8\xfb\x76\xeb\x1b\x9a\x63\x58\x3d\xd4\x8c\xd6\xab\x48\xfb\x05\x50\x91\x81\x4d\xe3\xa4\x57\x2f\x93\xcd\x0e\x88\x2f\x8a\xd1\xfb\x11\x3c\xb4\x16\x5f\xe1\x4c\xd5\x87\x4e\x08\x46\x65\xa3\x29\xdc\xd3\xa5\xda\xee\x0c\x6d\xda\x49\x25\x17\x48\x63\x3b\x8b\xc9\xe3\x42\x7c\x9f\x18\xf7\x03\xbb\xe6\x39\xe4\xb8\x5f\x06\x0a\x31\x4e\x97\x0a\xb7\x5e\x90\xb2\x2a\xd9\x94\xe4\xdf\x50\x92\x51\xfe\x0b\xba\xb4\xbe\x09\x4e\x24\x2a\x13\x04\x96\xc6\xd5\xb3\x20\xa6\x53\x6a\x63\x1f\x94\xc9\x05\xe5\x66\x66\x7c\x8f\xa4\x38\x77\x6b\xfd\x9e\xc9\x85\xca\x43\x20\x89\x46\x6a\xad\x6f\xbf\x7c\x97\xec\xed\x38\x80\x5d\x7c\x9f\xb4\x10\x8c\xd5\x6f\xb6\x6f\x2a\x9f\x94\x0e\xb6\x36\xe0\xee\x7f\x6a\x1f\x75\xa4\xf9\x68\xbb\xf2\x15\x7d\xf4\x46\xeb\xe9\x55\xd6\xc1\x84\x8e\x60\x42\xa6\xf7\xb8\x3d\x4b\x7b\x66\x74\x88\x1e\xd7\x5a\x52\x95\xf1\x48\xe1\x5b\x89\xfb\x68\x82\xfd\x86\x5d\xd9\x84\xa1\xcf\x66\xb7\xc0\xc4\xb2\x65\x05\x19\x23\xb9\x0e\x78\xe7\x44\x52\x0e\x53\xcc\x46\xa1\x13\x4e\x7d\x98\x9a\x41\x3b\xd8\xc5\xf8\x5a\xab\xcf\x54\xe3\x7b\x51\x95\xe5\x0e\xe3\x54\x77\xb2\xc6\x69\x3c\x60\x9d\xfa\x47\x0e\x2d\x84\xcd\x58\x6b\xe0\xb5\xd6\xf7\x73\x3c\x69\x36\xe4\xda\x2d\xb2\x08\xb6\xbd\x1a\x3f\xc0\xda\xca\xc0\xe0\x81\xf0\x3e\xd1\x63\x4d\xbd\x6d\x97\x34\x0c\x56\xfd\x06\xa5\x1b\x72\xbe\x6d\x59\x1a\xaa\x29\xf6\x44\x42\x59\xcf\xd3\x2c\x62\xbd\x4e\xfb\x22\xc0\x91\xeb\x67\xe7\x88\x76\x59\x96\xad\xe9\xf9\x92\xee\x33\x3d\xf7\x48\x2f\x1d\x6e\x0b\x5a\xdb\x1c\x1f\x13\x47\x83\x58\xf9\x95\x8a\xc8\xc6\x4e\x6d\x7f\xd9\x1f\xee\x00\xd9\x41\x62\xaf\xa9\x0e\xa7\x06\x94\xc3\xd9\x8e\x3d\xc3\xbc\xc7\x0e\x9a\x8f\xda\x79\x83\xb5\x15\xb6\x28\x64\x91\x06\x60\x4e\xd4\x8f\x37\x5f\x76\xe8\xc5\x97\xf4\x10\xbd\xb8\x5b\xd3\x1d\x6a\xbe\x18\x1d\x34\xa0\x17\xb5\x50\x30\xa7\xf6\x25\x3d\x52\x2f\xe2\x62\x6e\x14\x32\x07\x2a\x46\xec\xea\x8c\x18\x54\xd7\x47\xa9\xc6\x3a\x5f\xf6\xe9\x46\x7f\xdb\x7e\xbc\x39\x33\x6c\x75\x5e\x96\x07\x58\x9d\xfb\x37\xc4\x33\x3e\x77\xec\xf0\x4e\xab\xb3\xb3\x6b\xbb\xd6\xd1\x6f\xcc\x98\x25\x1e\xb6\x65\xc7\xa6\x77\x76\x5b\x9d\x06\x0b\xa5\x8d\xc5\x5d\xe5\x1b\x32\xfa\xa4\xf4\x69\x02\x33\x0f\x9e\x13\xcd\xa8\x3b\xa0\xc4\xf7\x74\x29\xe0\xed\x3b\x1b\xfe\xdb\x03\xef\xa0\xf4\x58\x91\xc1\xc9\x3e\x23\x4a\xe9\x86\x9a\x30\xde\x4e\x1e\x06\x36\x18\x78\xdf\x9a\x56\x0a\xbd\x95\x89\x91\x3d\xd8\x40\xe0\x54\x3e\xa5\x8a\x26\xf1\x7d\x92\x9a\xa0\x67\xf2\x0c\x6c\x40\x30\xd0\x80\x5d\x54\x44\x3d\x6a\x43\xc6\x05\xc1\x50\x88\x22\x4c\xf5\xae\x63\xb5\x9d\x14\x19\x06\xd7\xec\x02\x7e\x5e\xb1\x32\x3e\x29\xb2\x51\xdb\x74\x8d\x63\x62\x35\x12\x43\x2b\x89\x05\x67\x28\x83\x56\x8d\x89\xac\xe9\x9d\x3c\x34\x6e\xf6\xcd\xdd\xdd\xb5\xf1\x33\x6c\xdb\xfe\x7f\xe3\x30\x54\x49\x7b\x4d\xe5\x52\xb1\x17\x9c\x43\x44\xea\x3a\x67\x53\x55\xa6\xa2\x2a\xff\x9e\xc1\x74\x41\xb8\xa0\xf2\xbc\x91\xb3\xd3\x9f\x45\x2e\xdc\x86\xb3\x9a\xd0\x81\xc9\xcd\x23\x63\x2d\x4c\x8b\x3a\xb3\xfb\xc3\x70\x08\xac\x2a\xa1\xe6\x34\xa3\x33\x56\xd2\x4c\x55\x58\x08\x73\xe6\x36\xa6\xd9\x1b\x7c\xeb\x16\xf8\x74\x83\x6f\x7e\xe9\x87\xb5\x65\xd8\x0c\x52\x05\x5f\x99\xfd\x9e\xdc\xda\x88\x03\x21\xef\xbc\x7d\x37\x0c\x5d\xed\x7f\xdf\x6b\x13\x91\xd3\x73\xa0\x5d\x2b\x3a\x01\xb9\xfe\x41\x97\x28\xc9\xb5\xb8\xe1\x31\xf5\x1e\x86\x87\x3c\x9f\x49\xca\xe3\xcd\x37\xf2\xa2\xdd\xda\xd8\xdb\xe6\x44\x01\xda\x5e\xe5\x41\xe1\x40\x13\x25\x52\xa1\xbf\x02\x09\x53\x34\x4f\x68\x4e\xdd\x54\x0d\xe2\x90\x84\x9e\x45\x61\xb2\x19\x67\xe7\x83\x64\x76\x5d\x27\x58\x37\x52\xce\x11\xa0\x19\x96\xbe\xd0\x4d\x26\xd6\x5d\xd8\x71\x31\x1a\x69\xa6\x3b\x56\xf8\x4e\xe0\xaf\xe0\xae\x7a\x83\x15\x8c\xeb\x75\x94\xa4\xd7\x44\x2e\x3a\x7d\xb0\xe1\x8e\x16\x35\xda\xd3\xaa\x87\x65\xa7\x81\x7a\x30\x15\x6c\xec\x46\x1b\x0d\x46\x5b\x06\x8e\xb3\xeb\x70\x79\xde\x94\x2a\xdb\xe2\xd4\x83\xee\xa8\x77\x14\x3b\x7e\xad\x93\x66\x56\x0d\xeb\xd7\x7d\x81\xc7\x40\xe5\x11\xda\xb8\x9c\xff\xd3\x08\x8d\xc2\x18\x55\x3e\xd3\xe8\xec\x9c\xf2\x38\xb4\x59\x60\xf3\x6c\x76\xc6\xef\xf1\x3d\x1f\xa1\xd7\x92\xd1\x19\x69\x72\x89\xda\x4e\x33\x08\x9e\x48\x15\x96\xac\x66\xb0\x29\x0b\x46\x40\x60\x52\x65\xca\x71\x44\xd9\xa0\xcd\x7e\x74\x1f\x23\x35\x4f\xe4\x3c\xce\x07\x94\xb2\x08\x4a\xb5\xa7\x0a\xbb\x38\xd1\x7e\x0d\x01\xa1\x72\xdf\x80\xf4\x40\x50\xff\xff\xcb\x2f\x53\xf8\xd6\xe4\xc9\xb0\xa7\x1f\x4f\xd5\xe7\x86\x72\x55\x5a\x8d\x3d\x6a\x5e\x3d\x30\x74\x89\x17\xea\x0d\x96\x0d\xe4\x39\x26\xe3\x15\xb6\x3a\x3d\x89\xfd\x5a\x9b\xcc\x07\x8d\x50\x3c\xe8\xb8\x8a\xf4\x8a\x70\xb1\x20\xaa\x24\xcc\xe2\x5f\xe8\x26\xcc\xe7\x8b\x66\x3a\xa5\x34\x13\xda\x07\xfb\xf9\xed\xeb\x57\xa6\x42\x3b\xb3\xe5\xd4\xd6\x89\x53\x6b\x75\xe8\x60\xaa\x74\x78\x59\x3a\xfd\x8f\x05\xf2\x7c\x64\x5d\x43\xb7\xb2\xf6\x65\x07\x1a\xb0\x52\x48\x4a\x32\x4b\x33\x2d\x24\x7d\x09\xd1\x67\x88\xb8\x4a\x92\x11\x3c\xea\x02\xb8\x2e\x1b\x28\x9b\x11\x77\x75\x04\xef\xf1\xf8\xf9\x24\xd1\xe2\x07\xb3\x91\x35\xe5\x2b\xb5\x8b\x67\xb8\x16\xbb\xa1\x68\x89\xb0\x99\xa5\x16\x12\x50\x2b\x5a\xec\x12\x77\x69\xdb\xea\x59\x36\x03\x7c\xf5\x42\x4d\x69\x86\x5e\xea\x30\xab\x03\x64\xc7\x21\xb9\xe3\xe4\x99\x9d\x01\xbb\x9d\x7b\x3a\x17\xd1\x86\x73\x07\xce\x06\x0a\x82\xc7\x54\xb3\x4d\x9c\xa4\xb7\x54\xc6\x91\x11\x84\xa7\x77\xcb\x9a\x46\x23\x5f\xe5\xe9\x05\x2c\x2c\x93\xf9\xf8\x77\xc5\x83\xe5\xc3\x76\x1d\x68\x75\x78\x26\x87\x85\x61\x7a\x8a\x58\x11\x36\xd8\xc4\xe5\x7e\xd4\xd3\x33\xfd\x9a\xca\xf8\xde\x66\x0d\xd7\x61\xa0\x8e\xc6\x99\x2e\x59\x4d\x35\x3b\x7c\x8b\xa6\x63\x49\x72\x4f\x49\x28\xdc\xc5\x74\x07\xd6\x1e\x9b\xb5\x88\x2b\xe0\xe7\x20\xa6\x06\x32\xbe\x36\xee\xe3\x63\xaa\x98\xc2\x60\x8c\x1d\x13\xd7\x18\x23\xb5\x13\x94\x37\x2d\xdf\x69\x5f\x86\xc7\x93\x66\x06\x6f\xdf\x61\x15\x6e\x62\x78\x7d\x15\x2a\x5b\xed\x11\x7c\x16\x72\xd1\x71\xcb\x67\x6f\x4a\xb3\xb3\x08\x61\x04\x9f\x3f\x26\xcf\x36\xa3\xe7\xda\x4a\x11\xec\xb7\x14\xce\xe1\x67\xff\xf7\xcf\xff\x4c\xb3\x50\x4e\x4b\x1c\x93\xc0\x5f\xe8\x77\xd8\x35\x40\x34\xce\x61\xd2\xcc\xde\x9e\x61\xe3\x3b\xa3\xe6\x8c\xac\xc4\x92\x12\x45\xb7\x59\x1c\x59\xe9\x00\xb8\x28\x95\xe5\x3d\xc3\xc0\x17\x26\x79\x6b\x34\x77\xa0\xac\xca\x53\xe4\x2b\x67\xc8\x63\xc7\x68\x84\xc0\x4d\x06\xd7\x40\x35\x55\xc1\xaf\xe8\x63\xfc\xa8\xcf\x85\xa2\x91\x92\xa1\xfe\xda\x6d\x4d\xc1\x2a\x0c\x54\x2f\x7c\x46\xf9\xf2\x6b\x9c\xe5\xcc\x08\xd0\x5f\x1b\x71\x8e\xfb\x6e\x7a\x11\xc9\xc4\x8c\xe1\xe5\x91\x05\x75\xd2\x50\x09\x52\x6f\x73\x5b\x37\x43\x00\x53\xf7\x3c\xec\x65\x97\x43\x8a\xb9\x53\x9d\x88\xf2\x26\x75\xa8\x2a\xb4\xf0\x82\x82\x9d\x0a\x67\x0a\x03\x2b\x7b\x01\xfc\x54\xbf\x33\xc9\x2d\x8f\xc4\x8b\x16\x68\xe2\xc9\xbc\x38\x81\x6e\xd1\xdc\x22\x6d\x67\x18\x18\xdd\x1e\x2b\x6c\x34\x67\xa7\x03\xc2\x20\x15\x76\x22\xef\x9b\x11\x86\xbd\x36\x89\x17\xa4\xda\x63\x94\xb8\xa0\xc4\x4e\xed\xbf\xe9\xe4\x2a\xec\xfb\x53\x2b\x2a\xd9\xaa\xaf\xfb\xe0\x18\x14\x7e\xa7\x46\xd7\xf8\xfe\xab\x9d\xe7\x9a\x70\x5a\x4a\xe3\x13\x3a\x3e\x55\xa5\x68\xa8\x8e\x10\x2b\xdb\xaa\x20\x23\x07\xef\x8b\xdc\x07\x5e\x88\x62\xe7\xb2\x7a\x7d\x5e\x38\x31\x0a\x46\x75\x19\xf6\x77\x83\x8c\xce\x28\x07\x9e\xa2\xd4\x4e\x2f\x30\xc4\x89\x02\x48\x49\x0c\xf4\x85\x5b\xf7\x77\x63\xad\x06\x32\x4a\x6e\x34\x82\xf0\xc0\xbb\x1c\x9d\xa9\xe0\xbf\xa1\x24\x7b\x9e\xe7\xb1\x06\x7e\x58\x95\xa3\x2d\xeb\x9f\xa1\xc2\x1b\x41\x64\x24\x01\x47\x65\x6b\x0d\x1e\x5c\x99\x25\x67\x64\x24\xf5\x86\x20\xfa\x52\xad\x2d\x68\xac\x50\x43\xd7\xe8\xec\x1c\xdc\x35\x96\x56\xdc\x19\x3b\x4f\x75\x0f\x9e\xe7\x79\xf5\x78\x4d\xb8\x64\x24\xc7\xa8\x9a\xe4\x8d\x31\x0a\x5f\x32\x31\x25\x3c\x7b\x53\xaa\x2b\x47\x67\xed\x1b\x5b\xfe\x81\x4b\x3f\x07\x7f\xc2\x2d\x91\x8a\x59\xc9\x2d\xa1\xda\x2f\x56\x87\x05\x6b\xaf\x68\x35\x68\x74\x88\xe9\x0e\xec\xaa\x87\xac\x86\x7a\x1f\x25\x73\x35\x41\x02\x4f\x21\xbe\x20\x99\x61\x07\xf3\x0e\x11\x68\xd1\x72\xde\x3a\x7a\x94\xd7\x84\x93\x42\x58\x77\xe5\x57\x84\x8b\x98\xe3\x1e\xe2\xb5\x8e\xf6\x3d\xfa\xf6\x1f\x1a\xca\x97\x6d\x77\x9e\xbe\xb9\xf9\x2e\xfd\x25\x36\xc6\x76\x80\xd7\x25\xf4\x7d\x18\x5d\xd9\x7a\x76\xde\x72\xad\xba\x81\x61\x1c\x18\x55\x2f\x53\xda\x6e\xe9\x77\x95\x36\xac\x21\x52\x8b\xd4\x7d\x30\xce\xaa\xa0\xa4\x5f\xd3\x52\x4d\xea\x76\x13\xbd\x9b\xfe\xf0\xee\x6e\x14\x5e\x97\xb4\x9a\x6d\xe1\x41\x3f\x6c\xe3\xa1\x96\xf5\x63\x10\x71\xc7\xea\x73\x4e\x3f\xb4\xa9\x6e\xe3\xb4\xa8\x48\xb2\xed\xda\x46\x06\x7b\x1c\xa2\x5e\x89\x39\x94\xe4\xd4\xf2\x51\x58\xef\xc0\xe9\x75\x22\x94\xfc\xdc\xf4\x06\xb4\x6f\xc4\x8f\x48\x60\xf6\x20\xd8\x27\xfb\x7a\x6d\xeb\xa1\x9c\xa6\x33\x91\x86\x04\xc5\xd5\x96\x98\xd8\x14\x12\x4e\x16\xbc\x11\xf4\x1a\x05\x0c\xca\x4b\xe1\x8b\x8f\x37\x82\x5e\x96\x4d\xf1\xaa\x29\x26\x94\x8b\xb3\xf6\xc5\x65\xc1\xe4\x9b\xb2\xae\xea\x06\x5d\xe2\xcc\x89\x95\x75\xd8\x91\xa7\x2d\x6e\x16\x1d\x57\xab\x9e\xc6\x0a\xd5\xf4\x8a\x0a\x41\xe6\x34\xd9\x55\xf6\x60\xd9\xe0\xfd\xc8\x48\x2b\x67\x4e\x2a\x4b\xca\xeb\xe5\xe7\x60\x5d\x69\xa3\x30\xc6\x40\x5f\x0c\xa5\x3f\x8e\xb8\xa5\x85\x86\x92\xb1\xad\xed\x6e\x4d\x71\x25\xec\x76\xa5\x5f\x11\xf0\x76\xea\x75\x41\x04\x2c\x48\xa6\xc7\x0e\x25\x5b\x55\x8a\x2f\xc3\x0a\x4e\x86\x51\xe1\x96\xbf\xfd\xbb\xbf\x72\x41\x35\x14\x6d\x48\x89\xd4\x2a\x7d\x97\xe3\x45\x66\xc6\x68\xab\x0b\x2b\x5a\x74\x8c\x13\x8a\xde\xb8\xa8\x34\x90\x6e\x46\x77\x67\x2e\x77\x67\x86\xf6\x7e\xe4\x28\xe4\x79\x2a\x3b\x87\x6c\xe0\xaf\x92\xb9\xdb\x30\x50\x78\x21\xb9\x9b\x92\xb6\x77\xac\xa6\x0b\x94\x65\xa9\x7a\x43\x72\x51\x01\xc9\x32\x73\x86\x95\xb4\x87\x86\xe7\xe1\xee\x94\x72\x64\xba\x9e\xe2\x4d\xe4\x91\x11\xe2\xd7\x44\x2e\x92\x7d\x03\xdd\xae\x60\x65\x3e\xf2\x1c\x0a\x91\x28\xf9\xe8\xdc\x33\x82\x30\x49\x13\xdb\x76\x44\xee\xd9\x1b\xdd\x86\x58\x7b\x52\xcf\x25\x60\x4f\x23\xbd\x20\x67\x0f\x68\xb5\x12\x69\xa8\x56\x54\x52\xc5\x17\x30\x7c\x40\x4a\xbc\xc8\xf5\x3d\x56\xe5\xd7\xfa\xca\x98\x6e\x43\x39\x39\xad\x0a\xaa\x6f\x32\xb4\x93\x64\x4c\x4c\xf1\x22\xfe\x12\xc4\x52\x48\x5a\x8c\x40\xa8\x52\xf1\x9c\xdd\xd3\x7c\x69\x99\x0e\xd9\x08\xa2\x45\x25\xe4\x19\x72\x74\x64\x04\x68\x67\x05\xb1\x9b\xca\x56\x1b\x0f\x46\x6e\x8f\xcf\x4c\xb3\x19\x7c\x62\x59\xee\x1b\x22\xae\x39\x9d\xb1\x27\x37\xe3\x08\x22\x3c\x95\x91\xf6\xc8\x1d\x1e\xe7\xba\xf9\x6c\x3c\x8e\xe0\xff\x38\x4a\x20\x57\x06\x8d\x93\x82\x0d\xcf\xd3\x6b\xb4\x4e\x1c\xb4\x83\x6b\xbc\xd0\xb8\x68\x42\x73\x95\x17\x3d\xcb\x1e\x8f\xc3\xe4\x57\xf5\x9d\x87\xe8\x55\xa5\x37\xd2\x0b\x6f\xeb\xea\x7b\x45\x10\x1d\x0c\x42\x40\x8f\x15\xbf\x1f\x81\x0e\x99\x83\xd1\xf4\xe8\xf8\xe1\xa5\x3c\xae\xed\x4d\xfd\x96\x21\x09\xa3\x36\x6c\x8b\xc5\x63\xc1\xe1\xbe\x50\xb0\x5a\xe1\x15\xdf\x4d\xe7\xc7\x20\x8d\x6f\x55\x04\xd0\x1a\x1b\x08\x89\x95\x19\x7d\xda\x1e\xf1\xa5\x1d\x63\xb2\xfb\x9b\x5e\xc5\xae\xe4\x3e\x1a\x1b\xea\xbf\xc1\x8e\x71\x3d\xd7\x7b\xbd\x0c\xbf\xc9\xd9\x0f\x86\x8d\x8d\x05\x19\x4c\xab\x7a\xf9\xe6\xe6\xbb\xb8\x19\x81\xdf\xff\x05\x11\x14\xc5\x07\x86\x8f\x6d\xd7\xd6\x3a\xd8\xc6\xaa\x6b\x97\x76\x63\xc4\x86\x32\x3d\x05\x00\x5b\xd9\xfd\x60\x33\xc1\x6f\x6d\xdb\x76\x37\x3b\xbf\xdb\x9f\x4e\x5c\xf5\x66\xfa\x77\xee\x3b\x9c\xfe\xa9\x76\x7e\x28\x90\x6e\x2a\x09\x36\x89\x68\x5f\x9b\xe2\x88\x9d\xeb\xf5\x2a\x0c\x94\xe4\xb1\xfb\x38\x21\x82\xc2\x09\x9e\xe1\x37\x37\xdf\x8d\x54\x72\xc9\xa8\xd6\xc4\x35\xe3\xf9\x2d\xd1\x2e\x38\x3b\x87\x13\x1c\xa0\x1f\x55\x22\xc1\xb8\x07\x8e\x9c\x9f\xe3\x1b\x13\x60\xb8\x90\x4f\x36\x35\x7a\x8b\xf6\xed\x54\xd5\xc1\x37\xdc\x84\x6a\x90\x1d\xed\xc1\x95\x15\xd4\x4d\x9e\xab\x76\xa3\xe7\x68\x86\x16\x86\x80\xaa\x41\xd5\x6d\xcd\x57\xa3\x96\x54\x78\xc7\xa8\xbd\xc2\x9a\xb0\xbe\x03\x8a\xb6\x82\x09\x77\xa4\x00\xaf\x2a\x69\xee\xf0\x22\x48\x84\xa5\x24\xc5\x82\x3c\x50\xb0\xdf\xe6\xd8\x6d\x92\xa8\x79\x26\x2a\x5b\x65\xae\xb1\xa9\x1b\x3b\x28\xf9\x2d\x6a\x78\x23\xda\xc4\xf7\x89\x2d\x68\x52\xb6\x07\xae\x6a\xe9\x02\xd5\x2e\xb5\xe7\x5f\xb2\xa3\xdc\x29\x5c\x93\x5a\xee\xd2\x4e\xa7\x93\xbd\xeb\x24\xc3\xfa\xc0\x8f\xf8\xf4\x74\x32\x19\xb7\x1d\x97\x30\x0f\xb0\x0e\x7f\xb2\x84\xb2\xb3\x78\x4c\xe4\xd7\xcf\x23\x3b\x9d\xa1\xf3\xbe\x09\x72\x15\xd2\x1a\x25\xca\x50\x79\xcc\x5e\x81\xbd\x19\x92\xea\x15\x36\x3b\x23\x52\x9b\xfe\x95\x09\x47\x69\x6b\x6c\x33\x24\x65\xa3\x34\x66\x1a\x3b\x5a\x87\x67\x5a\xdf\x67\x33\x24\x65\x9a\xd1\xf1\xd5\x66\x9e\xc9\x92\xb8\x37\x68\x50\x13\x15\x0e\xf8\x7f\x5f\x7e\xe9\xa7\x8b\x46\xf0\x68\x72\x22\x2a\xe0\x59\x73\x8a\x46\x0e\x51\xe7\x81\x94\x0a\x96\x32\x0a\x14\xa3\x12\x29\xf1\x2b\x0b\x78\x7e\xf4\x2a\xfc\xf3\x67\x02\xd8\x50\x68\x17\xa6\xc5\xd1\x22\xb1\x37\x64\x66\xcb\x43\x7a\x42\x66\xbd\x64\xdf\x1d\x31\xd3\x93\x1e\x1f\x32\x3b\x26\x02\x76\x8e\x5d\xd2\xcb\xd7\x5f\x0d\x06\xc1\x30\x8a\xdd\xc6\xc6\x91\x31\x14\x09\x00\xe9\xb8\xf4\xa3\x5e\x1b\xe6\x4f\x1f\x2c\x0c\xa8\xf5\xc4\xd3\x1c\x50\x03\x4e\xc3\xe3\x5e\x2e\x02\x3e\xe9\x24\x3e\x5e\xff\x62\xe7\x14\xb3\x78\x33\x13\x91\x8c\x20\xf2\x78\xe6\x0c\xbe\xf8\x2c\xfb\x22\x1a\x75\xe6\x70\x73\xa3\x39\x82\x0b\xde\xc7\xcd\xe1\xd1\x71\xbd\xc1\xb0\xde\x50\x54\x6f\x1d\x1e\x1e\xd3\x13\x75\xf2\x6c\xff\x26\xf8\x44\xb1\x0b\x36\x9d\x3e\x6f\x6b\xa0\x83\x6e\x5c\xc6\x17\x40\x97\xe5\x91\x02\xc8\xf5\xf4\x0c\x83\x2d\x93\xe0\xd4\x88\xaa\x03\x4c\xa8\x9d\xb1\x20\x17\x3d\x0f\x9d\xb7\x6b\xc2\x41\x40\x0e\x0f\x98\xab\xef\x4d\xe0\xc9\x7f\x20\x9c\x55\x8d\x00\x54\x27\x68\x85\xa1\x5e\x0e\xc6\xe3\x6d\xe5\x1b\xa3\x1d\x31\x02\x15\x30\xd3\x39\x6d\x3c\x24\x89\x15\x05\x07\x2c\x6b\xb7\x2c\x50\x5d\x06\x4a\xc8\x5c\xe8\x08\x3f\x1a\xf5\x40\x72\xdc\x8b\x28\x32\x91\x49\xdd\xb4\xfb\x7b\x01\x1b\xc4\x30\xb3\x69\x26\xb7\x11\x4e\x4e\x3f\x84\xe1\x86\xfa\x1a\x74\x8d\x37\xfb\x0d\xfb\xde\x3a\x2a\x71\xab\x64\x36\x5e\xaa\x97\x0b\x0c\xfc\x92\x82\x4a\x4c\xdb\xe0\xcd\x6f\xb9\x40\xb4\xad\x27\xa7\x6a\xa8\x6c\x52\x69\xe3\x5a\xa4\xa0\x2a\x3c\xd4\x89\x75\xe2\x2c\xb7\xba\xdd\x05\x3b\x6d\xc7\xf5\xe6\x2d\x52\x34\x19\xa3\xb1\xc2\xbf\xcf\xdb\x43\x5c\x76\x27\x0f\x36\x65\x10\xca\xb9\xaa\xc9\xb3\xf2\x0b\xd9\x9e\x5e\xbd\xca\xcf\x3e\x44\xda\xf8\xb4\x12\x54\x53\xe5\x86\x3c\x1a\x23\xb3\xb1\xbf\xdd\x3b\xf7\x02\x7f\x6c\x50\x4e\x31\x5e\x97\x74\xaa\xe0\xa2\x37\x62\x8d\x02\x4e\x16\xb5\x49\xcf\x9a\x0d\x96\x45\xdd\x25\xe7\x50\xec\x1a\x2c\x1d\x4f\xe1\xb0\xb0\x31\x9b\xa9\x03\x61\xba\xdd\xd0\x9a\x62\x8c\xd1\x0e\xfb\x56\xbc\x20\x9e\x44\x6d\x21\xc7\x17\xf6\xab\x7b\xa6\xe7\xd7\x15\xf6\x82\xc8\x6e\x7f\x94\xd8\x11\x7a\xa9\x6f\x23\x17\xa2\xfe\xa5\x8b\xc7\x9b\x8a\xec\x77\x9a\x85\x53\xd7\xe3\x82\x14\x34\x6f\xeb\xd0\x0d\x1f\xe4\xc2\x3d\x1b\x83\xcf\xbb\x9c\x31\x34\xde\xe6\x43\x0c\x1a\xe9\xf3\x2c\x8b\x77\xa0\x32\xf2\x3e\x55\x15\x3f\x60\xcc\xab\xcd\x9b\x74\xb8\x11\x71\xa2\x39\x06\x8a\x67\x50\x71\x88\x51\x5f\x6e\x11\x2d\xd9\xa4\xab\xc5\x1f\x21\x8d\x4f\xf0\x62\x42\x53\x62\xb5\x9d\xb5\x6a\x2a\x6e\xa2\x2c\xea\x9b\x85\x4d\x81\xe2\x14\x21\x0b\x14\xee\x27\x63\xe7\x9a\x6d\x6d\xdc\xad\x24\xfc\xf2\xa9\xee\x22\x62\x67\x75\x5b\xc1\x66\x83\x74\xee\x9c\x98\xcd\xa5\x06\xb2\x30\x77\xeb\x36\xea\x4d\x86\xa0\x19\xba\xf5\x1c\xc6\xde\xf3\x68\x8e\xe3\x8c\xb0\x5c\x17\x04\xd9\xd3\x38\x04\x3f\xea\x6e\x8c\x11\xad\x56\x12\xc5\xb2\xa8\x93\xf0\xa8\x5d\xd7\x10\x92\x1f\x43\xdc\x75\x1f\xe5\x34\x93\xd8\x2e\xab\xd5\xf8\xe4\x0f\xff\xf2\xd7\x3f\xfc\xfe\x9f\x7e\xf8\xc7\x7f\xfd\xe1\xef\x7e\xf7\xc7\x7f\xf8\x9b\xff\xf8\xb7\x7f\xff\xc3\xef\xff\xf6\x87\x7f\xfe\xdd\x1f\x7f\xf7\xf7\x5b\x1b\xbc\x31\xff\x61\xdb\xe8\x93\xfa\x23\x98\xfe\x64\x08\xf4\xd6\x61\xf0\x57\xf6\x11\x13\xed\x9b\xa7\x0d\x21\x38\xa2\x7a\xd2\xcd\x3d\x99\x87\xf5\xba\x2b\x20\x2b\xcc\xa3\x0d\x65\xd6\xb6\xa5\xa4\xea\x3e\x2c\x25\x5b\xb0\xb5\xd3\x62\x7a\x88\xb1\x20\xa1\xb3\x6f\x4e\x20\xe8\xc3\xdc\x95\x08\xa6\xcd\xf2\x8f\x1d\x88\x56\xb5\xb1\x0f\x90\x32\x5f\x53\xb9\x5a\xd9\xbe\xe6\x2e\x6d\xf2\x4c\xf5\xf8\xe4\x1c\xda\x57\x7f\x49\x79\xa5\x5c\x73\x4f\xd4\xed\x3c\xae\xbd\x80\x0d\xc9\x87\x4e\xec\xd1\x67\xb6\x77\x12\x7b\x68\x1d\x0b\xed\x3a\xb8\x5b\x2c\x65\x80\xed\x3b\xbb\xfd\xec\xf9\x53\x12\xf7\x60\xbc\x3c\x5e\x47\xfc\xb6\x10\xf4\x59\x7a\xe3\xb1\xf3\x64\x1e\x54\x2c\xb8\xb5\x44\xd4\x84\x70\x0e\x06\x1d\x6d\xc4\xc6\xca\x68\x33\x7c\x5d\x7a\xd6\xa3\x8a\xa0\x46\x73\x2a\xf5\xe7\x1d\x7d\xeb\x04\x6d\xe1\xae\x71\x22\xab\x1b\x2a\x3f\xd6\x1e\x3d\xc4\x48\x39\xdd\x93\xda\xee\xa6\xd8\xc7\x27\xf0\xba\xcc\x97\xea\x53\x51\x88\xb0\xea\x2d\x4c\x8a\x4d\x2c\xd0\x86\x83\x89\x8b\x5f\xe1\x58\xcc\x7a\xe0\xed\x4a\x45\xd9\x4a\x2e\xfc\xb2\xd3\xaa\x60\x12\x2d\x9c\xac\x51\xdf\xb3\x41\x4f\x99\x95\x54\x08\x38\x19\x9b\x19\xd5\xf2\x7b\x45\xd3\x1e\x3b\xa5\x95\x58\x9d\xfd\x33\x07\x63\xd3\x09\xbd\xda\xef\x82\xb6\x3e\xe8\x60\xd6\x78\x38\x6d\x3c\x98\x37\x56\x47\x04\x6f\x6d\x38\x33\xda\x61\xe8\x4b\x8a\x8f\xb7\xa6\xb5\x53\xa7\x82\x06\x18\xe8\x41\x11\x04\x9f\x3d\x44\x23\x50\x94\x6d\x6d\xea\x17\xd8\xc1\x85\x41\xdc\xa7\x3c\x63\xac\x4b\x14\x58\xa4\xfe\xa2\x99\xcd\x28\x8f\x11\x57\xbf\xb4\x1a\xfc\xe2\x05\xe3\x11\x07\xdb\xdf\x37\xdb\xfb\xc5\x13\xf7\xb9\xd3\x43\xb3\x83\xaf\x9e\xdf\xdd\x7e\xcc\xcd\x0d\x5b\xde\x86\xe3\x41\x47\x54\xdd\xb3\xb9\x07\x8a\xb8\x20\xa2\xe5\x08\x04\x7f\xd0\xcf\xee\xf3\x75\xc6\x87\xdc\xfe\x72\xde\xa1\x57\x34\xfb\x2e\x5b\xde\x36\x13\xc7\x00\x88\x03\xaa\xeb\x86\xde\x36\x13\x31\xe5\x6c\xa2\x3f\x36\xb3\x75\x9f\xd2\xff\x96\x07\xfa\x95\x7d\x7d\x50\x24\xf3\x07\xbf\xa7\x02\x42\xaf\xc4\x5c\x2d\x36\xd9\xcb\x59\x86\x43\xd0\xb5\xed\x47\xdc\xbb\xab\xe8\xb1\xc1\x6a\xd5\xf9\x1e\x06\xb9\xa7\xde\x86\x1d\xfa\x8d\x19\x1c\x72\xc0\x37\x66\x5a\xc8\x7b\xaf\xb9\x74\xbe\xa5\x9b\x3a\x02\x9b\xcb\x03\x89\xbf\xd7\x03\xdf\x96\xd9\x0d\xc1\x14\x41\xfc\xf7\xfb\xc4\x4c\xbb\xae\xbd\xf7\x56\x0d\x93\xba\x3d\x3e\x83\xee\x9a\xf1\xb6\x87\x5b\xf6\x51\x9f\x97\xc1\x8d\xf2\x7a\x18\x7d\x35\x32\xf7\xe5\x2f\xcb\xde\x3e\x5e\x96\xaf\xed\xb1\x51\x55\x74\xec\xf7\x67\xbc\x5d\xf6\x2e\x16\x1c\xff\xfd\x19\x0f\x8e\x2b\x51\xde\x4f\x5c\x6f\x79\x00\x70\xd2\xa5\x6e\x4b\xda\xad\xaf\xca\x98\x99\x36\x33\x1b\x43\xf3\x78\xb1\x75\x24\xd9\x6a\xd5\x25\x7b\x7f\x8e\xa7\x10\x73\x23\x00\xaf\xc4\x7c\x38\xa4\xbe\x5d\x6d\xda\x77\xd9\x72\x47\xcd\x7a\x21\xe6\xe9\x4b\xa5\xf7\xfa\xab\x2c\xfb\x8a\x02\x2c\x2f\x0f\xdc\xdc\x34\xe4\x31\x71\xd7\xb6\x4c\xae\x87\x5f\x36\x43\xa3\x6a\xc1\x07\x94\xc9\x61\xd8\x0e\xaa\xc9\x6f\xb0\xfc\xc3\x44\x3e\x85\xdb\x2f\xfb\x7d\x8f\x2b\x52\x2e\x75\xb6\x07\x73\x80\xb6\x1c\x44\x7f\x07\xb0\xc1\x28\x05\xa6\x5c\x10\x3d\x14\x80\xa5\x60\x98\xf0\x33\x77\x89\x8c\x50\x1b\xc4\x7b\x20\x2f\x87\xf3\x1a\xb3\x7d\x04\xe5\xb4\xa3\xc1\x5c\x46\xa2\x3f\x14\x6a\xe9\xdc\xe1\x41\x3d\x3f\x2e\xc1\x9f\xd8\x4c\x84\x33\xb4\x60\x93\x63\x2a\x7a\x70\x45\x26\x3a\x6e\xdb\x8e\xa8\xe8\xf1\x46\xef\xf9\x9a\x04\x2e\xff\xbf\xfa\x6b\x12\x2d\x76\xdb\x56\xc4\xa0\x02\xba\x6e\x26\x39\x13\x0b\xca\x8f\x29\xd8\x19\xfe\x94\x84\x2f\x10\x7c\x5b\xc0\x93\x3d\xb6\x88\x64\x4b\x93\xef\xae\x22\x59\x19\xfb\x7f\x78\xd8\xf9\x06\x0f\xbd\xa2\x8f\x6e\x75\xa6\x8e\xc4\x7d\x2b\x22\x08\x7a\x8d\x15\x5f\x7b\x44\xa6\x63\xcf\x51\xf0\xeb\x43\x5e\xd2\x7d\x3a\x63\xbb\x30\x64\xb3\x2e\xa4\x53\x87\xeb\x04\x8a\x3d\x19\xbd\x55\x20\xbd\x22\xd7\xb8\x52\x1e\x22\x1b\x55\x1a\xc7\x7f\xef\x01\x17\x36\x94\xd0\x1e\x12\xfb\x2e\x8f\x3d\x40\x95\x5e\xd9\x77\xd8\xf7\x1e\xac\x5e\xf8\x93\x7d\xd9\x61\x00\xe5\x03\x54\x15\x0c\xeb\x2a\x2c\xdf\x3b\x40\x0d\x51\xce\xed\x7c\x5b\xea\x68\x3c\x86\x6d\x8d\x34\x1e\xc3\xda\x83\x6e\x07\xa7\xaa\x86\xdf\x0e\xfe\xfc\xf3\xed\x77\x29\x66\x51\xd5\xa7\x27\xdf\x33\x73\x33\xed\x7d\x34\x30\x8d\xcd\x2c\x6f\x03\xb1\x05\xc4\x16\x91\x9e\x6c\x6c\xef\xf7\x2a\x0e\x55\xca\x7d\x69\xd2\xdd\x5a\xb9\xff\xc3\x50\x3e\x0f\x1b\xdd\xdc\xaf\x9a\x4d\xc6\x6e\x87\x66\xee\x5e\xf9\x71\xff\x07\x3d\xa6\x6a\xc8\x44\x48\x94\xeb\x30\xa0\xac\x71\xab\xad\xa4\xbf\x12\xf3\x4d\x5d\x7d\xaa\x70\xfd\x69\x14\xf6\xa1\x36\xd6\xbe\x5c\xa5\x25\xf9\xa0\x82\x76\x13\xa9\x13\xe1\xc0\x25\xde\x36\xfc\xe7\x00\x28\x39\x2c\xcd\x50\x6a\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x5b\x6f\xe4\x38\x76\xf0\xb3\xf4\x2b\xce\x08\x73\x91\xfc\x95\x55\xf3\x05\x48\xb0\xf1\xc0\x01\xba\xdd\x9e\x99\xde\x1d\x77\x7b\x6d\xf7\xce\x43\xa3\xd1\xcb\x2a\xb1\xaa\xb8\xd6\xad\x49\xca\x76\x6d\xa5\x5e\xf2\xb2\x01\x12\x20\x40\x9e\xf2\x10\x2c\xf2\x94\xd7\x20\xcf\xf9\x3d\x3b\xc1\xfe\x8b\xe0\xf0\x26\xaa\x4a\xaa\x4b\xcf\x6c\x10\x04\x69\x60\xc7\x25\x8a\x3c\x3c\x3c\x3c\x3c\x77\x6a\xc7\x63\xb8\xa8\x32\x0a\x73\x5a\x52\x4e\x24\xcd\x60\xb2\x84\x09\xe1\x55\x99\xc2\x8b\xd7\xf0\xea\xf5\x1d\x5c\xbe\x78\x79\x97\x86\xe3\x31\xdc\x50\xde\x94\x25\x2b\xe7\xba\x03\x3c\xb2\x3c\x87\xea\x81\xf2\x47\xce\x24\x05\xb9\x60\x02\x66\x2c\xa7\xaa\xf3\xaf\x28\x17\xac\x2a\xcf\x60\xb5\x4a\xcd\xef\xf5\xda\x7b\x01\x2f\x88\xa4\xfe\x5b\x7c\x5e\xaf\xc3\xb0\x26\xd3\x7b\x32\xa7\xf8\xe6\x5a\xff\x7c\x45\x0a\xf5\x66\x3c\x86\x3b\x3b\x07\x4c\xab\x52\x12\x56\x0a\x28\xa8\x5c\x54\x99\x00\x59\x41\x41\xee\x29\xb0\x32\x63\x0f\x2c\x6b\x48\x0e\xb4\xcc\xea\x8a\x95\x52\xc0\x8c\x57\x05\x08\xca\x1f\xd8\x94\x8a\x11\xa2\xc1\xe9\x87\x86\x0a\x09\xa4\xcc\x80\x53\x51\x57\xa5\xa0\x20\x97\x35\x55\x90\xb0\x2b\xae\xa8\x12\xb4\x85\x32\x02\x22\xe0\x91\xe6\x39\xfe\xa5\xe5\xb4\xca\x28\x17\x08\x00\xe1\x65\xd4\x3c\xcf\x2a\x6e\x06\x2a\x68\x23\xd5\x40\x90\x52\x33\xa8\x1a\x0e\xa2\xa9\xeb\x8a\x23\xa5\x25\x27\xa5\xc0\xdf\x88\x19\x23\x39\xfb\x2d\x91\xac\x2a\x11\xda\xac\xe2\x05\x91\x22\x0d\x43\x56\xa8\x1e\x71\x18\x44\x93\xa5\xa4\x22\x0a\x83\x08\xd7\x4e\x9f\x24\xfe\x54\x68\xb0\x72\x3e\xfe\x8d\xa8\x4a\x6c\x98\x15\xaa\x9d\x55\xfa\xbf\x63\x56\x35\x92\xe5\xf8\x50\x52\x39\x5e\x48\x59\xdb\xdf\x0d\x57\xcd\x42\xf2\x69\x55\x3e\x98\x9f\xac\x9c\x8b\x28\x0c\x83\x68\xce\xe4\xa2\x99\xa4\xd3\xaa\x18\xcf\xab\xd3\x7b\x26\xc7\xf8\x3f\x4b\x8b\x28\x0c\x48\xb9\xac\x27\x10\xcd\xab\x6a\x9e\xd3\x74\x5e\xe5\xa4\x9c\xa7\x15\x9f\x8f\x6b\x5e\xc9\x6a\xd2\xcc\xc6\x6a\xfd\xe3\xfb\xb2\x7a\x2c\xc7\xaa\x77\x14\x06\x59\xc3\xd5\x22\x8f\x18\xda\x0e\x89\xc2\x80\x16\xb5\x3c\x66\x5e\xd3\x3f\x0a\x83\x19\xa3\x79\x56\x10\x71\x7f\xc4\x68\x6f\x4c\x14\x06\x42\xf2\x66\x2a\x8f\x18\x6e\x07\x44\x61\x20\x59\x41\x85\x24\x45\x7d\xc4\x70\x6f\x4c\x14\x06\x8f\x9c\xd4\x35\xe5\xe2\x08\x00\xed\x90\xed\x2d\xe5\x2c\xcf\xc9\xb8\x68\x9e\xa2\xee\x9b\xfa\x7e\x3e\xa6\x9c\x57\x5c\x71\xda\x8e\x89\x1c\xe7\xa9\x16\xcb\x7e\x3b\x06\xa8\x1f\x88\xc8\x6a\x75\x0a\x6c\x06\xf4\x03\xa4\x17\x55\x39\x63\xf3\xf4\xce\x9d\x84\x88\xe4\x79\x04\x51\x49\xa4\x88\x60\xbd\xee\xe2\x86\xad\xa7\xac\x52\x7f\xd3\x39\x72\x38\x82\xa2\x65\xb6\x5e\x1f\x04\x75\xce\xeb\xa9\x85\xba\x85\xa7\x7a\x39\xf8\x66\x5c\x50\x49\x32\x22\xc9\xe6\xa4\x07\x4f\x89\xf0\xdb\x13\x3f\x70\xbe\x5c\x07\x8b\x8e\x37\x17\x9e\xdd\x23\x00\x60\xf7\xe8\x20\xb2\xb4\xc4\xc6\x5f\x47\x4c\x81\xdd\x3b\x38\x26\x61\x18\x3e\x10\x0e\x71\x18\xbc\x87\x73\x98\x15\x32\xbd\xad\x39\x2b\xa5\x7e\x56\x02\x2c\xbd\xa8\x8a\x9a\x70\xaa\x9b\x8c\xf4\x49\x9f\xc9\x8a\xe9\x96\xce\x32\xd3\x57\xf4\xf1\x96\xf2\x07\xca\xf5\x4b\x2d\xcd\xd2\x57\x55\x7d\x91\x57\xa2\x6d\x4d\x2f\xaa\x7a\xa9\x1f\x34\xf3\xa6\xdf\x73\x52\x87\xc1\x78\x0c\x66\x3f\x2d\x1b\x6a\x19\x8f\x5d\x95\x48\x4a\x9f\x95\x6a\x5c\x2b\x64\xd2\x17\xe6\x27\x36\x1b\xf1\x91\x5e\xe2\x5f\x6c\xb0\x47\x3a\xbd\x55\x3f\xb0\xc9\x3b\xa6\xe9\x9d\xfd\x8d\x2f\xda\xe3\x87\xbd\x59\x39\xff\x15\xc9\x1b\xb5\x6e\x4f\xae\xa4\x5f\xe3\xef\x2b\x22\xee\xc3\x24\x0c\xc7\x27\x07\xfd\x83\x4b\xab\x93\xc0\x36\xed\xff\x37\x56\x1a\xf4\x65\x09\x04\xf5\xcd\x03\xe5\x23\x60\xf2\x0b\x01\x8d\xa0\xb3\x26\x57\x6a\x6a\xd6\x94\x53\xa4\x82\x00\xb9\x20\x12\x4a\x8a\x5a\xaa\x82\xaa\x56\xb6\x01\x54\x38\xb6\xa6\xfc\xd4\xaa\x01\x04\x38\x21\x82\x89\x14\xbe\xae\x38\xd0\x27\x52\xd4\x39\x1d\xc1\xb2\x6a\xa0\x60\xf3\x85\x84\x9a\x08\x54\x91\x1e\xc2\xb2\x02\xe2\x26\xd2\xf3\xd4\xbc\xca\x9a\x29\x15\x08\x8e\x94\x8a\x03\xd2\x6f\x49\x99\xe5\x88\xe3\x23\x93\x0b\xa0\x64\xba\x30\x9a\x1e\x62\x3b\x7b\x02\x8f\x8c\xd3\x0c\x9a\x1a\x91\x24\x20\x6a\x3a\x65\x33\x36\x85\x9a\xc8\x45\x0a\xf1\x4b\x89\x00\x99\x80\x9a\x57\x13\x32\xc9\x97\x40\xa0\x60\x42\x6a\x2b\x01\x32\x2a\xd8\xbc\xc4\xa1\xac\x7c\xa8\xee\x51\xdd\x53\x40\x66\x63\x53\xea\xac\x0a\x85\x22\x45\x38\xed\x0a\x34\x0f\x00\x6b\x29\x99\x26\xe1\x78\xec\xa8\x3b\xcd\x19\x2d\x65\x97\xba\xb2\x82\x69\x95\xe7\x74\x2a\x3d\x03\x25\x5f\xc2\xb4\x2a\x35\x38\x9a\x79\xe6\x0a\x2b\x71\x41\x08\x50\xb0\x72\x9e\x6b\xc3\x44\xd3\x8a\x21\x85\x0b\x8a\x78\xf8\xf8\xb2\x52\x52\x3e\x23\x53\x3a\xb4\x13\x08\xcc\x4d\xd6\x6f\x24\x35\x38\x59\x6b\x95\x28\x63\x01\x0f\xe0\x85\x59\xcf\xb4\x2a\x26\xac\x54\x74\x2a\x0c\x8a\xde\xc6\x8e\x8c\x29\x25\x1b\x5e\x02\x93\x48\x57\x44\x70\x4a\xf2\x9c\x72\xb4\x98\x88\x45\x36\x0d\xd5\x72\xb6\x08\xba\x0a\x83\x37\xa5\x5b\x1f\xcd\x56\xab\xd4\x8e\xd0\x26\xa0\x91\x04\xab\x15\x27\xe5\x9c\xc2\xa7\x0c\xce\xce\xc1\xf5\xb9\xd2\x5b\x86\x72\x6c\xb5\xfa\x94\x99\x31\x76\x16\x00\x70\x4b\x4d\x6d\x63\xb8\x5a\x69\xe1\xaa\xad\x4b\xdb\x2c\xf6\x4f\x81\x0c\x0c\xb1\xb7\x88\x04\xbc\x49\xe3\xa9\x7c\x02\x63\xa5\xa1\x6a\xc0\xbf\x23\x64\x98\x93\xd5\xea\x9b\x0a\x11\x83\x4f\x59\x7a\xa3\x4d\xd0\xbb\x65\x6d\x17\x98\x40\xbc\xd1\x43\x1b\xa6\x5e\x97\x91\x16\x70\x09\xac\xc2\xc0\xda\xad\xaa\x0d\x11\xa5\x69\xcf\xca\x11\x19\x9c\x3c\x09\x03\x54\x56\x9c\xc3\x27\xe7\x50\xb2\x1c\x21\x04\x66\xbf\x4a\x96\x2b\x20\x61\xb0\x0e\x6d\x9b\x85\x9e\xee\xc5\x29\x19\x21\xbc\x70\xed\xc8\x89\xc4\xbc\x22\xf7\x1e\x79\xc2\xd5\x4a\x1d\xe4\x4f\x25\x45\x44\xd3\x35\x76\x3e\x05\x9f\xca\x9f\x4a\x3a\x44\x68\x84\xd5\xb7\x32\x81\x44\x97\xb4\x97\x4d\x92\xed\xed\x86\x95\x5b\x1c\xee\x5f\xff\x2e\x59\xc7\xc0\x9d\xa8\xd5\x3a\x81\xd8\x12\xc3\x6f\x56\x14\xf3\xb6\x23\xe0\xf4\x03\x2e\xc4\x40\x48\xe3\x7d\xbb\x1d\x06\xc1\x83\xdb\x3b\xe1\xef\x1d\xa2\xa6\x50\x49\xc2\xa0\x67\xd7\xb6\xb7\x0d\xf7\xcd\xb6\x3e\xe8\xed\x08\x90\xad\x5b\xdd\xec\xef\x0d\x2a\xc7\x67\x79\x7e\xf9\x34\xa5\xb5\x54\x7a\x4a\x68\x11\xeb\x28\xa5\x34\x14\xba\x2c\xe6\x6c\xda\x17\x02\xd4\x36\x12\x84\xe2\xd9\x04\x8e\xd4\x57\x2c\xcb\x72\xfa\x48\xb8\xf6\x02\xdf\x08\xeb\x17\xa2\x13\x54\xd7\xf9\x12\x45\x0c\x8a\x4d\x89\xc0\x0b\xd7\x5b\x79\x5d\xf4\x81\xf2\xa5\xdb\x36\x3c\x2f\x28\x41\x8c\xdb\xa6\xe0\xbd\xae\x51\x6b\x90\x3c\x5f\x8e\x5c\x3f\x01\x53\x52\xc2\x84\x2a\x5d\x43\x33\x1c\x36\x59\x42\x89\x64\x97\x15\xb6\xd3\xa7\x69\xde\x64\x34\xd3\x5e\xe0\x84\x22\x0a\xb8\xe6\x9a\x66\xe9\x16\x35\xe2\x16\xa7\x11\x44\xb7\x92\xc8\x46\x44\x23\x88\xae\x59\x39\x8f\x12\x77\xee\x4f\x1c\x41\x92\xc1\xf1\x0e\x43\x8f\x2a\xa3\x16\x9b\x34\x4d\x85\x32\x0b\x14\xf3\xb0\xd2\x34\x9f\x9d\x43\x41\xea\xb7\xfa\xd5\x3b\x4d\xfe\xd5\x1a\xd9\x6b\xf3\xc0\xf4\x9c\x96\x20\x08\x22\x8f\x8d\xa2\x33\x58\xad\x47\x61\xe0\x9b\x91\xeb\x30\x0c\x50\xd7\xbf\x47\x54\x10\x8c\x06\xe9\xd0\xc2\x99\xd8\x0c\xde\x8f\xa0\xba\xc7\xd7\x16\xb1\xb7\xf4\xe9\xdd\x57\xf0\x49\x75\x8f\xd8\x06\x41\x4d\x4a\x36\x8d\x5b\x0b\x6f\x16\x47\x97\x16\x84\x5d\x37\x7c\xf1\x99\xf8\x02\xb2\x8a\x0a\x28\x2b\x09\xf4\x89\x09\xf9\x15\x08\x4a\xfd\x8d\x77\x3e\xa5\x32\xe9\x11\xa9\x24\x31\xfc\x9c\xd1\x9c\x4a\x1a\x5b\x0c\xd4\xbb\x76\x01\xac\x9c\xb6\xe8\xdb\x3e\x70\x38\xa1\xd8\x4c\x81\x38\x3f\x87\x0e\xc9\x14\x84\x20\xe8\x15\xa5\x70\xee\x61\x1e\xf7\x76\x41\xdc\x83\xf5\x26\xc9\xf5\xb1\xfb\x8e\x4c\x68\x4e\xb3\x96\x1b\x74\x08\x65\x4e\xa5\xe5\x5d\xe4\x77\x47\x3d\xc5\xc2\x8f\x0b\x5a\xba\xb7\x95\xc7\xae\x06\x98\xe6\xba\x91\x3e\x65\xe6\x20\x34\xba\x33\xe8\xb8\x0c\xd1\xc1\x1d\x36\x45\xa3\x86\xb3\xa9\x32\xb3\xda\x65\xc0\xe3\x82\x4d\x17\xea\x0c\x09\x5a\xf6\xa1\x60\x34\xb9\x19\x6d\xed\x98\x8a\x1b\x3d\xbe\xbd\x2a\x3c\x24\xb1\x66\xe0\xd1\xb6\x14\xee\x11\xcc\xe1\xd0\xba\x3e\x5a\x36\x6d\x21\x35\x32\xeb\x54\x14\xe7\x74\x4a\xd9\x03\x8a\x26\xaa\x97\x58\xcd\x3a\xeb\x4e\xe1\x96\x52\x07\xc6\x83\xa2\x5e\x58\x43\xd4\x20\x7c\xf9\x84\x88\x22\x47\x66\x54\x12\x96\x0b\xb4\x93\xed\x71\x42\x20\xd6\xd8\x25\x39\x93\xcb\x74\x97\x08\xe9\xac\x3d\x2e\x7e\x04\x45\xff\x4f\xce\xfc\xef\x91\x33\x9d\x61\x23\x38\x4a\xec\x1c\x1e\xa0\x38\xd4\xf5\xfc\xe6\xe6\xfa\x02\xd7\x49\xf9\xd1\xbe\x27\x9a\x71\xde\x70\x0c\xd7\x8a\xd6\x18\x70\xfb\x03\xe4\x81\xb0\x9c\x4c\x72\xaa\xdd\x86\xf9\xcd\xf5\x05\x0c\x38\x03\xe6\x38\x75\x21\x3b\x0f\x51\xb4\xb2\x61\x04\x95\xb2\x1d\x04\x9e\x87\x4e\x2c\x46\xb1\x37\xe5\xda\xb4\x48\x86\x26\xc2\xed\x12\x5e\x47\x81\x3c\xf1\xf6\xdd\x30\x24\xe4\xde\xbe\xb7\xcf\xe9\xac\xe2\x34\x46\x6c\xaf\x4c\x4c\xe9\xae\x32\xd6\x67\x32\xc2\x5d\xdb\x98\xe7\x1c\x0d\x27\x5a\x66\x71\xa7\xd9\xad\x27\x4d\xd3\x44\x05\x3a\x56\x2b\xb8\xab\xbe\xab\x1e\x29\x6f\x19\x11\x49\x85\x9b\x6b\x4d\xc3\xcf\x11\x23\x7c\x49\xf9\x0a\xdd\xa4\xbd\xdc\xbb\x5a\x59\x98\x8e\xe5\xce\xa0\xbb\x2c\x17\xa2\x89\x91\xa1\x1d\xe9\xfb\xb8\x14\x4d\x91\xe0\x85\x8a\x94\xe3\xfa\xbd\x1e\xc6\x3a\x56\x1d\x2e\xcb\xde\x0e\xc6\xd7\xc1\x1e\x1d\x4a\xa4\x69\x8a\xc3\x90\x76\x1b\xcc\x8f\xc2\xb7\x5d\xf0\xa6\xeb\xec\x8c\xf3\xfe\xfd\x76\x86\xbe\xd6\x72\x1e\x9c\x3f\x81\xbb\xba\x45\x64\x80\x0d\x2a\x9b\x78\x88\x67\xd0\x1b\x37\xcb\x04\x2a\x50\xd4\x7a\x38\xca\xaa\x5d\xee\xe1\x2b\xdd\x8b\xaa\x3a\x6c\xb1\x80\x93\x76\xaa\xa4\x05\xbf\xc7\xff\x45\xf7\xe8\xa7\x75\x80\xdf\xa3\x8f\x54\x77\x5c\xa8\x2d\x4a\xaa\x55\x28\x6e\xf2\x9d\xaa\x23\x3d\xe1\xfa\x23\x9d\x60\x43\x61\xcd\xf2\xfb\xc9\x3b\x1e\xc3\xae\xd3\x01\x0c\xc5\xa1\xe3\x09\x15\x23\x4e\xf5\x00\xd3\xe3\x6b\xdc\x1f\x15\x27\xc2\x9c\x0e\xe5\x52\xe8\x30\x92\x11\xa1\xdb\x6c\x66\xbd\x5d\x0c\xe6\x60\xac\x8a\x9f\x66\x55\x41\x58\xb9\xab\x73\x0a\xd7\x9c\x15\x84\xb3\x7c\x69\xc3\x5b\x7e\x2c\x4c\x4b\xe4\x5d\xeb\x88\xdf\x6f\x33\x07\xae\xe5\x86\x7e\x68\x99\x51\xb9\xdd\xde\x53\x37\xf0\xa1\x1c\x6d\x33\xe6\x10\x47\xdb\xed\xe4\x87\x1d\xdb\x74\x59\x1e\xbc\x4d\x3b\x65\x54\xef\x3e\xe9\x11\xb6\xcb\xd0\x46\xed\xdf\x02\x33\x85\xda\xb0\x1d\xdb\x5a\xe7\xcb\x83\xf6\x69\xe7\x42\xfa\x36\xaa\x2f\x12\xb2\x6b\xa7\x44\x8d\x5b\x65\x47\x1d\x70\x8e\xbc\xcd\x12\x75\xdf\x6e\x7d\x4b\x73\x0c\xab\x87\x9a\xd1\x7a\x15\x69\xbf\x00\x2a\x32\xb0\x69\x9c\xf4\xea\x45\xb2\xd9\x01\xf1\x45\x31\x7a\x3f\x82\x87\xd6\xe2\x2b\x9c\xa9\xfa\xd0\x09\xc1\xa8\x6c\x34\x85\x7b\xba\x54\xdb\x9d\xa1\x4d\x3b\xa9\xe4\x02\x69\x6c\x67\x31\x79\x5c\x88\xef\x13\xe3\x7e\x60\xd7\x3c\x87\x1c\xf7\xcb\x40\x21\xc6\xe9\x52\xe1\xd6\x0b\x52\x56\x25\x9b\x92\xfc\x5b\x4a\x32\xca\x7f\x41\x97\xd6\x37\xc1\x89\x44\x65\x82\xc0\xd2\xb8\x7a\x16\xc4\x74\x4a\x6d\xec\x83\x32\xb9\xa0\xdc\xcc\x8c\xef\x91\x14\xe7\x6e\xad\xdf\x33\xb9\x50\x79\x08\x24\xd1\x48\xad\xf5\xed\x97\xef\x92\xbd\x1d\x07\xb0\x8b\xef\x93\x16\x82\xb1\xfa\xcd\xf6\x4d\xe5\x93\xd2\xc1\xd6\x06\xdc\xfd\x4f\xed\xa3\x8e\x34\x1f\x6d\x57\xbe\xa2\x8f\xde\x68\x3d\xbd\xca\x3a\x98\xd0\x11\x4c\xc8\xf4\x1e\xb7\x67\x69\xcf\x8c\x0e\xd1\xe3\x5a\x4b\xaa\x32\x1e\x29\xbc\x94\xb8\x8f\x26\xd8\x6f\xd8\x95\x4d\x18\xfa\x6c\x76\x0b\x4c\x2c\x5b\x56\x90\x31\x92\xeb\x80\x77\x4e\x24\xe5\x30\xc5\x6c\x14\x3a\xe1\xd4\x87\xa9\x19\xb4\x83\x5d\x8c\xaf\xb5\xfa\x4c\x35\xbe\x17\x55\x59\xee\x30\x4e\x75\x27\x6b\x9c\xc6\x03\xd6\xa9\x7f\xe4\xd0\x42\xd8\x8c\xb5\x06\x5e\x6b\x7d\x3f\xc7\x93\x66\x43\xae\xdd\x22\x8b\x60\xdb\xab\xf1\x03\xac\xad\x0c\x0c\x1e\x08\xef\x13\x3d\xd6\xd4\xdb\x76\x49\xc3\x60\xd5\x6f\x50\xba\x21\xe7\xdb\x96\xa5\xa1\x9a\x62\x4f\x24\x94\xf5\x3c\xcd\x22\xd6\xeb\xb4\x2f\x02\x1c\xb9\x7e\x76\x8e\x68\x97\x65\xd9\x9a\x9e\x2f\xe8\x3e\xd3\x73\x8f\xf4\xd2\xe1\xb6\xa0\xb5\xcd\xf1\x31\x71\x34\x88\x95\x5f\xa9\x88\x6c\xec\xd4\xf6\x97\xfd\xe1\x0e\x90\x1d\x24\xf6\x9a\xea\x70\x6a\x40\x39\x9c\xed\xd8\x33\xcc\x7b\xec\xa0\xf9\xa8\x9d\x37\x58\x5b\x61\x8b\x42\x16\x69\x00\xe6\x44\xfd\x78\xf3\x65\x87\x5e\x7c\x41\x0f\xd1\x8b\xbb\x35\xdd\xa1\xe6\x8b\xd1\x41\x03\x7a\x51\x0b\x05\x73\x6a\x5f\xd0\x23\xf5\x22\x2e\xe6\x46\x21\x73\xa0\x62\xc4\xae\xce\x88\x41\x75\x7d\x94\x6a\xac\xf3\x65\x9f\x6e\xf4\xb7\xed\xc7\x9b\x33\xc3\x56\xe7\x65\x79\x80\xd5\xb9\x7f\x43\x3c\xe3\x73\xc7\x0e\xef\xb4\x3a\x3b\xbb\xb6\x6b\x1d\xfd\xc6\x8c\x59\xe2\x61\x5b\x76\x6c\x7a\x67\xb7\xd5\x69\xb0\x50\xda\x58\xdc\x55\xbe\x21\xa3\x4f\x4a\x9f\x26\x30\xf3\xe0\x39\xd1\x8c\xba\x03\x4a\x7c\x4f\x97\x02\xde\xbe\xb3\xe1\xbf\x3d\xf0\x0e\x4a\x8f\x15\x19\x9c\xec\x33\xa2\x94\x6e\xa8\x09\xe3\xed\xe4\x61\x60\x83\x81\xf7\xad\x69\xa5\xd0\x5b\x99\x18\xd9\x83\x0d\x04\x4e\xe5\x53\xaa\x68\x12\xdf\x27\xa9\x09\x7a\x26\x5f\x81\x0d\x08\x06\x1a\xb0\x8b\x8a\xa8\x47\x6d\xc8\xb8\x20\x18\x0a\x51\x84\xa9\xde\x75\xac\xb6\x93\x22\xc3\xe0\x9a\x5d\xc0\xcf\x2b\x56\xc6\x27\x45\x36\x6a\x9b\xae\x71\x4c\xac\x46\x62\x68\x25\xb1\xe0\x0c\x65\xd0\xaa\x31\x91\x35\xbd\x93\x87\xc6\xcd\xbe\xbd\xbb\xbb\x36\x7e\x86\x6d\xdb\xff\x6f\x1c\x86\x2a\x69\xaf\xa9\x5c\x2a\xf6\x82\x73\x88\x48\x5d\xe7\x6c\xaa\xca\x54\x54\xe5\xdf\x57\x30\x5d\x10\x2e\xa8\x3c\x6f\xe4\xec\xf4\x67\x91\x0b\xb7\xe1\xac\x26\x74\x60\x72\xf3\xc8\x58\x0b\xd3\xa2\xce\xec\xfe\x30\x1c\x02\xab\x4a\xa8\x39\xcd\xe8\x8c\x95\x34\x53\x15\x16\xc2\x9c\xb9\x8d\x69\xf6\x06\xdf\xba\x05\x3e\xdd\xe0\x9b\x5f\xfa\x61\x6d\x19\x36\x83\x54\xc1\x57\x66\xbf\x27\xb7\x36\xe2\x40\xc8\x3b\x6f\xdf\x0d\x43\x57\xfb\xdf\xf7\xda\x44\xe4\xf4\x1c\x68\xd7\x8a\x4e\x40\xae\x7f\xd0\x25\x4a\x72\x2d\x6e\x78\x4c\xbd\x87\xe1\x21\xcf\x66\x92\xf2\x78\xf3\x8d\xbc\x68\xb7\x36\xf6\xb6\x39\x51\x80\xb6\x57\x79\x50\x38\xd0\x44\x89\x54\xe8\xaf\x40\xc2\x14\xcd\x13\x9a\x53\x37\x55\x83\x38\x24\xa1\x67\x51\x98\x6c\xc6\xd9\xf9\x20\x99\x5d\xd7\x09\xd6\x8d\x94\x73\x04\x68\x86\xa5\xcf\x75\x93\x89\x75\x17\x76\x5c\x8c\x46\x9a\xe9\x8e\x15\xbe\x13\xf8\x6b\xb8\xab\xde\x60\x05\xe3\x7a\x1d\x25\xe9\x35\x91\x8b\x4e\x1f\x6c\xb8\xa3\x45\x8d\xf6\xb4\xea\x61\xd9\x69\xa0\x1e\x4c\x05\x1b\xbb\xd1\x46\x83\xd1\x96\x81\xe3\xec\x3a\x5c\x9e\x37\xa5\xca\xb6\x38\xf5\xa0\x3b\xea\x1d\xc5\x8e\xdf\xe8\xa4\x99\x55\xc3\xfa\x75\x5f\xe0\x31\x50\x79\x84\x36\x2e\xe7\xff\x34\x42\xa3\x30\x46\x95\xcf\x34\x3a\x3b\xa7\x3c\x0e\x6d\x16\xd8\x3c\x9b\x9d\xf1\x7b\x7c\xcf\x47\xe8\xb5\x64\x74\x46\x9a\x5c\xa2\xb6\xd3\x0c\x82\x27\x52\x85\x25\xab\x19\x6c\xca\x82\x11\x10\x98\x54\x99\x72\x1c\x51\x36\x68\xb3\x1f\xdd\xc7\x48\xcd\x13\x39\x8f\xf3\x01\xa5\x2c\x82\x52\xed\xa9\xc2\x2e\x4e\xb4\x5f\x43\x40\xa8\xdc\x37\x20\x3d\x10\xd4\x9f\x7f\xf9\x65\x0a\x2f\x4d\x9e\x0c\x7b\xfa\xf1\x54\x7d\x6e\x28\x57\xa5\xd5\xd8\xa3\xe6\xd5\x03\x43\x97\x78\xa1\xde\x60\xd9\x40\x9e\x63\x32\x5e\x61\xab\xd3\x93\xd8\xaf\xb5\xc9\x7c\xd0\x08\xc5\x83\x8e\xab\x48\xaf\x08\x17\x0b\xa2\x4a\xc2\x2c\xfe\x85\x6e\xc2\x7c\xbe\x68\xa6\x53\x4a\x33\xa1\x7d\xb0\x9f\xdf\xbe\x7e\x65\x2a\xb4\x33\x5b\x4e\x6d\x9d\x38\xb5\x56\x87\x0e\xa6\x4a\x87\x97\xa5\xd3\xff\x58\x20\xcf\x47\xd6\x35\x74\x2b\x6b\x5f\x76\xa0\x01\x2b\x85\xa4\x24\xb3\x34\xd3\x42\xd2\x97\x10\x7d\x86\x88\xab\x24\x19\xc1\xa3\x2e\x80\xeb\xb2\x81\xb2\x19\x71\x57\x47\xf0\x1e\x8f\x9f\x4f\x12\x2d\x7e\x30\x1b\x59\x53\xbe\x52\xbb\x78\x86\x6b\xb1\x1b\x8a\x96\x08\x9b\x59\x6a\x21\x01\xb5\xa2\xc5\x2e\x71\x97\xb6\xad\x9e\x65\x33\xc0\x57\xcf\xd5\x94\x66\xe8\xa5\x0e\xb3\x3a\x40\x76\x1c\x92\x3b\x4e\xbe\xb2\x33\x60\xb7\x73\x4f\xe7\x22\xda\x70\xee\xc0\xd9\x40\x41\xf0\x98\x6a\xb6\x89\x93\xf4\x96\xca\x38\x32\x82\xf0\xf4\x6e\x59\xd3\x68\xe4\xab\x3c\xbd\x80\x85\x65\x32\x1f\xff\xae\x78\xb0\x7c\xd8\xae\x03\xad\x0e\xcf\xe4\xb0\x30\x4c\x4f\x11\x2b\xc2\x06\x9b\xb8\xdc\x8f\x7a\x7a\xa6\xdf\x50\x19\xdf\xdb\xac\xe1\x3a\x0c\xd4\xd1\x38\xd3\x25\xab\xa9\x66\x87\x97\x68\x3a\x96\x24\xf7\x94\x84\xc2\x5d\x4c\x77\x60\xed\xb1\x59\x8b\xb8\x02\x7e\x0e\x62\x6a\x20\xe3\x6b\xe3\x3e\x3e\xa6\x8a\x29\x0c\xc6\xd8\x31\x71\x8d\x31\x52\x3b\x41\x79\xd3\xf2\x9d\xf6\x65\x78\x3c\x69\x66\xf0\xf6\x1d\x56\xe1\x26\x86\xd7\x57\xa1\xb2\xd5\x1e\xc1\x67\x21\x17\x1d\xb7\x7c\xf6\xa6\x34\x3b\x8b\x10\x46\xf0\xf9\x63\xf2\xd5\x66\xf4\x5c\x5b\x29\x82\xfd\x96\xc2\x39\xfc\xec\xff\xff\xe5\x5f\x68\x16\xca\x69\x89\x63\x12\xf8\x2b\xfd\x0e\xbb\x06\x88\xc6\x39\x4c\x9a\xd9\xdb\x33\x6c\x7c\x67\xd4\x9c\x91\x95\x58\x52\xa2\xe8\x36\x8b\x23\x2b\x1d\x00\x17\xa5\xb2\xbc\x67\x18\xf8\xc2\x24\x6f\x8d\xe6\x0e\x94\x55\x79\x8a\x7c\xe5\x0c\x79\xec\x18\x8d\x10\xb8\xc9\xe0\x1a\xa8\xa6\x2a\xf8\x15\x7d\x8c\x1f\xf5\xb9\x50\x34\x52\x32\xd4\x5f\xbb\xad\x29\x58\x85\x81\xea\x85\xcf\x28\x5f\x7e\x8d\xb3\x9c\x19\x01\xfa\x6b\x23\xce\x71\xdf\x4d\x2f\x22\x99\x98\x31\xbc\x3c\xb2\xa0\x4e\x1a\x2a\x41\xea\x6d\x6e\xeb\x66\x08\x60\xea\x9e\x87\xbd\xec\x72\x48\x31\x77\xaa\x13\x51\xde\xa4\x0e\x55\x85\x16\x5e\x50\xb0\x53\xe1\x4c\x61\x60\x65\x2f\x80\x9f\xea\x77\x26\xb9\xe5\x91\x78\xd1\x02\x4d\x3c\x99\x17\x27\xd0\x2d\x9a\x5b\xa4\xed\x0c\x03\xa3\xdb\x63\x85\x8d\xe6\xec\x74\x40\x18\xa4\xc2\x4e\xe4\x7d\x33\xc2\xb0\xd7\x26\xf1\x82\x54\x7b\x8c\x12\x17\x94\xd8\xa9\xfd\x37\x9d\x5c\x85\x7d\x7f\x6a\x45\x25\x5b\xf5\x75\x1f\x1c\x83\xc2\xef\xd4\xe8\x1a\xdf\x7f\xb5\xf3\x5c\x13\x4e\x4b\x69\x7c\x42\xc7\xa7\xaa\x14\x0d\xd5\x11\x62\x65\x5b\x15\x64\xe4\xe0\x7d\x91\xfb\xc0\x0b\x51\xec\x5c\x56\xaf\xcf\x0b\x27\x46\xc1\xa8\x2e\xc3\xfe\x6e\x90\xd1\x19\xe5\xc0\x53\x94\xda\xe9\x05\x86\x38\x51\x00\x29\x89\x81\xbe\x70\xeb\xfe\x6e\xac\xd5\x40\x46\xc9\x8d\x46\x10\x1e\x78\x97\xa3\x33\x15\xfc\x37\x94\x64\xcf\xf2\x3c\xd6\xc0\x0f\xab\x72\xb4\x65\xfd\x33\x54\x78\x23\x88\x8c\x24\xe0\xa8\x6c\xad\xc1\x83\x2b\xb3\xe4\x8c\x8c\xa4\xde\x10\x44\x5f\xaa\xb5\x05\x8d\x15\x6a\xe8\x1a\x9d\x9d\x83\xbb\xc6\xd2\x8a\x3b\x63\xe7\xa9\xee\xc1\xb3\x3c\xaf\x1e\xaf\x09\x97\x8c\xe4\x18\x55\x93\xbc\x31\x46\xe1\x0b\x26\xa6\x84\x67\x6f\x4a\x75\xe5\xe8\xac\x7d\x63\xcb\x3f\x70\xe9\xe7\xe0\x4f\xb8\x25\x52\x31\x2b\xb9\x25\x54\xfb\xc5\xea\xb0\x60\xed\x15\xad\x06\x8d\x0e\x31\xdd\x81\x5d\xf5\x90\xd5\x50\xef\xa3\x64\xae\x26\x48\xe0\x29\xc4\xe7\x24\x33\xec\x60\xde\x21\x02\x2d\x5a\xce\x5b\x47\x8f\xf2\x9a\x70\x52\x08\xeb\xae\xfc\x8a\x70\x11\x73\xdc\x43\xbc\xd6\xd1\xbe\x47\xdf\xfe\x43\x43\xf9\xb2\xed\xce\xd3\x37\x37\xdf\xa5\xbf\xc4\xc6\xd8\x0e\xf0\xba\x84\xbe\x0f\xa3\x2b\x5b\xcf\xce\x5b\xae\x55\x37\x30\x8c\x03\xa3\xea\x65\x4a\xdb\x2d\xfd\xae\xd2\x86\x35\x44\x6a\x91\xba\x0f\xc6\x59\x15\x94\xf4\x1b\x5a\xaa\x49\xdd\x6e\xa2\x77\xd3\x1f\xde\xdd\x8d\xc2\xeb\x92\x56\xb3\x2d\x3c\xe8\x87\x6d\x3c\xd4\xb2\x7e\x0c\x22\xee\x58\x7d\xce\xe9\x87\x36\xd5\x6d\x9c\x16\x15\x49\xb6\x5d\xdb\xc8\x60\x8f\x43\xd4\x2b\x31\x87\x92\x9c\x5a\x3e\x0a\xeb\x1d\x38\xbd\x4e\x84\x92\x9f\x9b\xde\x80\xf6\x8d\xf8\x11\x09\xcc\x1e\x04\xfb\x64\x5f\xaf\x6d\x3d\x94\xd3\x74\x26\xd2\x90\xa0\xb8\xda\x12\x13\x9b\x42\xc2\xc9\x82\x37\x82\x5e\xa3\x80\x41\x79\x29\x7c\xf1\xf1\x46\xd0\xcb\xb2\x29\x5e\x35\xc5\x84\x72\x71\xd6\xbe\xb8\x2c\x98\x7c\x53\xd6\x55\xdd\xa0\x4b\x9c\x39\xb1\xb2\x0e\x3b\xf2\xb4\xc5\xcd\xa2\xe3\x6a\xd5\xd3\x58\xa1\x9a\x5e\x51\x21\xc8\x9c\x26\xbb\xca\x1e\x2c\x1b\xbc\x1f\x19\x69\xe5\xcc\x49\x65\x49\x79\xbd\xfc\x1c\xac\x2b\x6d\x14\xc6\x18\xe8\x8b\xa1\xf4\xc7\x11\xb7\xb4\xd0\x50\x32\xb6\xb5\xdd\xad\x29\xae\x84\xdd\xae\xf4\x2b\x02\xde\x4e\xbd\x2e\x88\x80\x05\xc9\xf4\xd8\xa1\x64\xab\x4a\xf1\x65\x58\xc1\xc9\x30\x2a\xdc\xf2\xb7\x7f\xf7\x57\x2e\xa8\x86\xa2\x0d\x29\x91\x5a\xa5\xef\x72\xbc\xc8\xcc\x18\x6d\x75\x61\x45\x8b\x8e\x71\x42\xd1\x1b\x17\x95\x06\xd2\xcd\xe8\xee\xcc\xe5\xee\xcc\xd0\xde\x8f\x1c\x85\x3c\x4f\x65\xe7\x90\x0d\xfc\x55\x32\x77\x1b\x06\x0a\x2f\x24\x77\x53\xd2\xf6\x8e\xd5\x74\x81\xb2\x2c\x55\x6f\x48\x2e\x2a\x20\x59\x66\xce\xb0\x92\xf6\xd0\xf0\x3c\xdc\x9d\x52\x8e\x4c\xd7\x53\xbc\x89\x3c\x32\x42\xfc\x9a\xc8\x45\xb2\x6f\xa0\xdb\x15\xac\xcc\x47\x9e\x43\x21\x12\x25\x1f\x9d\x7b\x46\x10\x26\x69\x62\xdb\x8e\xc8\x3d\x7b\xa3\xdb\x10\x6b\x4f\xea\xb9\x04\xec\x69\xa4\x17\xe4\xec\x01\xad\x56\x22\x0d\xd5\x8a\x4a\xaa\xf8\x02\x86\x0f\x48\x89\x17\xb9\xbe\xc7\xaa\xfc\x5a\x5f\x19\xd3\x6d\x28\x27\xa7\x55\x41\xf5\x4d\x86\x76\x92\x8c\x89\x29\x5e\xc4\x5f\x82\x58\x0a\x49\x8b\x11\x08\x55\x2a\x9e\xb3\x7b\x9a\x2f\x2d\xd3\x21\x1b\x41\xb4\xa8\x84\x3c\x43\x8e\x8e\x8c\x00\xed\xac\x20\x76\x53\xd9\x6a\xe3\xc1\xc8\xed\xf1\x99\x69\x36\x83\x4f\x2c\xcb\x7d\x4b\xc4\x35\xa7\x33\xf6\xe4\x66\x1c\x41\x84\xa7\x32\xd2\x1e\xb9\xc3\xe3\x5c\x37\x9f\x8d\xc7\x11\xfc\x3f\x47\x09\xe4\xca\xa0\x71\x52\xb0\xe1\x79\x7a\x8d\xd6\x89\x83\x76\x70\x8d\x17\x1a\x17\x4d\x68\xae\xf2\xa2\x67\xd9\xe3\x71\x98\xfc\xaa\xbe\xf3\x10\xbd\xaa\xf4\x46\x7a\xe1\x6d\x5d\x7d\xaf\x08\xa2\x83\x41\x08\xe8\xb1\xe2\xf7\x23\xd0\x21\x73\x30\x9a\x1e\x1d\x3f\xbc\x94\xc7\xb5\xbd\xa9\xdf\x32\x24\x61\xd4\x86\x6d\xb1\x78\x2c\x38\xdc\x17\x0a\x56\x2b\xbc\xe2\xbb\xe9\xfc\x18\xa4\xf1\xad\x8a\x00\x5a\x63\x03\x21\xb1\x32\xa3\x4f\xdb\x23\xbe\xb4\x63\x4c\x76\x7f\xd3\xab\xd8\x95\xdc\x47\x63\x43\xfd\x37\xd8\x31\xae\xe7\x7a\xaf\x97\xe1\x37\x39\xfb\xc1\xb0\xb1\xb1\x20\x83\x69\x55\x2f\xdf\xdc\x7c\x17\x37\x23\xf0\xfb\x3f\x27\x82\xa2\xf8\xc0\xf0\xb1\xed\xda\x5a\x07\xdb\x58\x75\xed\xd2\x6e\x8c\xd8\x50\xa6\xa7\x00\x60\x2b\xbb\x1f\x6c\x26\xf8\xad\x6d\xdb\xee\x66\xe7\x77\xfb\xd3\x89\xab\xde\x4c\xff\xce\x7d\x87\xd3\x3f\xd5\xce\x0f\x05\xd2\x4d\x25\xc1\x26\x11\xed\x6b\x53\x1c\xb1\x73\xbd\x5e\x85\x81\x92\x3c\x76\x1f\x27\x44\x50\x38\xc1\x33\xfc\xe6\xe6\xbb\x91\x4a\x2e\x19\xd5\x9a\xb8\x66\x3c\xbf\x25\xda\x05\x67\xe7\x70\x82\x03\xf4\xa3\x4a\x24\x18\xf7\xc0\x91\xf3\x73\x7c\x63\x02\x0c\x17\xf2\xc9\xa6\x46\x6f\xd1\xbe\x9d\xaa\x3a\xf8\x86\x9b\x50\x0d\xb2\xa3\x3d\xb8\xb2\x82\xba\xc9\x73\xd5\x6e\xf4\x1c\xcd\xd0\xc2\x10\x50\x35\xa8\xba\xad\xf9\x6a\xd4\x92\x0a\xef\x18\xb5\x57\x58\x13\xd6\x77\x40\xd1\x56\x30\xe1\x8e\x14\xe0\x55\x25\xcd\x1d\x5e\x04\x89\xb0\x94\xa4\x58\x90\x07\x0a\xf6\xdb\x1c\xbb\x4d\x12\x35\xcf\x44\x65\xab\xcc\x35\x36\x75\x63\x07\x25\xbf\x45\x0d\x6f\x44\x9b\xf8\x3e\xb1\x05\x4d\xca\xf6\xc0\x55\x2d\x5d\xa0\xda\xa5\xf6\xfc\x4b\x76\x94\x3b\x85\x6b\x52\xcb\x5d\xda\xe9\x74\xb2\x77\x9d\x64\x58\x1f\xf8\x11\x9f\x9e\x4e\x26\xe3\xb6\xe3\x12\xe6\x01\xd6\xe1\x4f\x96\x50\x76\x16\x8f\x89\xfc\xfa\x79\x64\xa7\x33\x74\xde\x37\x41\xae\x42\x5a\xa3\x44\x19\x2a\x8f\xd9\x2b\xb0\x37\x43\x52\xbd\xc2\x66\x67\x44\x6a\xd3\xbf\x32\xe1\x28\x6d\x8d\x6d\x86\xa4\x6c\x94\xc6\x4c\x63\x47\xeb\xf0\x4c\xeb\xfb\x6c\x86\xa4\x4c\x33\x3a\xbe\xda\xcc\x33\x59\x12\xf7\x06\x0d\x6a\xa2\xc2\x01\x7f\xf6\xe5\x97\x7e\xba\x68\x04\x8f\x26\x27\xa2\x02\x9e\x35\xa7\x68\xe4\x10\x75\x1e\x48\xa9\x60\x29\xa3\x40\x31\x2a\x91\x12\xbf\xb2\x80\xe7\x47\xaf\xc2\x3f\x7f\x26\x80\x0d\x85\x76\x61\x5a\x1c\x2d\x12\x7b\x43\x66\xb6\x3c\xa4\x27\x64\xd6\x4b\xf6\xdd\x11\x33\x3d\xe9\xf1\x21\xb3\x63\x22\x60\xe7\xd8\x25\xbd\x7c\xfd\xf5\x60\x10\x0c\xa3\xd8\x6d\x6c\x1c\x19\x43\x91\x00\x90\x8e\x4b\x3f\xea\xb5\x61\xfe\xf4\xc1\xc2\x80\x5a\x4f\x3c\xcd\x01\x35\xe0\x34\x3c\xee\xe5\x22\xe0\x93\x4e\xe2\xe3\xf5\x2f\x76\x4e\x31\x8b\x37\x33\x11\xc9\x08\x22\x8f\x67\xce\xe0\x8b\xcf\xb2\x2f\xa2\x51\x67\x0e\x37\x37\x9a\x23\xb8\xe0\x7d\xdc\x1c\x1e\x1d\xd7\x1b\x0c\xeb\x0d\x45\xf5\xd6\xe1\xe1\x31\x3d\x51\x27\x5f\xed\xdf\x04\x9f\x28\x76\xc1\xa6\xd3\xe7\x6d\x0d\x74\xd0\x8d\xcb\xf8\x02\xe8\xb2\x3c\x52\x00\xb9\x9e\x9e\x61\xb0\x65\x12\x9c\x1a\x51\x75\x80\x09\xb5\x33\x16\xe4\xa2\xe7\xa1\xf3\x76\x4d\x38\x08\xc8\xe1\x01\x73\xf5\xbd\x09\x3c\xf9\x0f\x84\xb3\xaa\x11\x80\xea\x04\xad\x30\xd4\xcb\xc1\x78\xbc\xad\x7c\x63\xb4\x23\x46\xa0\x02\x66\x3a\xa7\x8d\x87\x24\xb1\xa2\xe0\x80\x65\xed\x96\x05\xaa\xcb\x40\x09\x99\x0b\x1d\xe1\x47\xa3\x1e\x48\x8e\x7b\x11\x45\x26\x32\xa9\x9b\x76\x7f\x2f\x60\x83\x18\x66\x36\xcd\xe4\x36\xc2\xc9\xe9\x87\x30\xdc\x50\x5f\x83\xae\xf1\x66\xbf\x61\xdf\x5b\x47\x25\x6e\x95\xcc\xc6\x4b\xf5\x72\x81\x81\x5f\x52\x50\x89\x69\x1b\xbc\xf9\x2d\x17\x88\xb6\xf5\xe4\x54\x0d\x95\x4d\x2a\x6d\x5c\x8b\x14\x54\x85\x87\x3a\xb1\x4e\x9c\xe5\x56\xb7\xbb\x60\xa7\xed\xb8\xde\xbc\x45\x8a\x26\x63\x34\x56\xf8\xf7\x79\x7b\x88\xcb\xee\xe4\xc1\xa6\x0c\x42\x39\x57\x35\x79\x56\x7e\x21\xdb\xd3\xab\x57\xf9\xd9\x87\x48\x1b\x9f\x56\x82\x6a\xaa\xdc\x90\x47\x63\x64\x36\xf6\xb7\x7b\xe7\x5e\xe0\x8f\x0d\xca\x29\xc6\xeb\x92\x4e\x15\x5c\xf4\x46\xac\x51\xc0\xc9\xa2\x36\xe9\x59\xb3\xc1\xb2\xa8\xbb\xe4\x1c\x8a\x5d\x83\xa5\xe3\x29\x1c\x16\x36\x66\x33\x75\x20\x4c\xb7\x1b\x5a\x53\x8c\x31\xda\x61\x2f\xc5\x73\xe2\x49\xd4\x16\x72\x7c\x61\xbf\xba\x67\x7a\x7e\x53\x61\x2f\x88\xec\xf6\x47\x89\x1d\xa1\x97\xfa\x36\x72\x21\xea\x5f\xba\x78\xbc\xa9\xc8\x7e\xa7\x59\x38\x75\x3d\x2e\x48\x41\xf3\xb6\x0e\xdd\xf0\x41\x2e\xdc\xb3\x31\xf8\xbc\xcb\x19\x43\xe3\x6d\x3e\xc4\xa0\x91\x3e\xcb\xb2\x78\x07\x2a\x23\xef\x53\x55\xf1\x03\xc6\xbc\xda\xbc\x49\x87\x1b\x11\x27\x9a\x63\xa0\x78\x06\x15\x87\x18\xf5\xe5\x16\xd1\x92\x4d\xba\x5a\xfc\x11\xd2\xf8\x04\x2f\x26\x34\x25\x56\xdb\x59\xab\xa6\xe2\x26\xca\xa2\xbe\x59\xd8\x14\x28\x4e\x11\xb2\x40\xe1\x7e\x32\x76\xae\xd9\xd6\xc6\xdd\x4a\xc2\x2f\x9f\xea\x2e\x22\x76\x56\xb7\x15\x6c\x36\x48\xe7\xce\x89\xd9\x5c\x6a\x20\x0b\x73\xb7\x6e\xa3\xde\x64\x08\x9a\xa1\x5b\xcf\x61\xec\x3d\x8f\xe6\x38\xce\x08\xcb\x75\x41\x90\x3d\x8d\x43\xf0\xa3\xee\xc6\x18\xd1\x6a\x25\x51\x2c\x8b\x3a\x09\x8f\xda\x75\x0d\x21\xf9\x31\xc4\x5d\xf7\x51\x4e\x33\x89\xed\xb2\x5a\x8d\x4f\xfe\xf0\xaf\x7f\xf3\xc3\xef\xff\xf9\x87\x7f\xfa\xb7\x1f\xfe\xfe\x77\x7f\xfc\xc7\xbf\xfd\xcf\x7f\xff\x8f\x3f\xfc\xfe\xef\x7e\xf8\x97\xdf\xfd\xf1\x77\xff\xb0\xb5\xc1\x1b\xf3\x1f\xb6\x8d\x3e\xa9\x3f\x82\xe9\x4f\x86\x40\x6f\x1d\x06\x7f\x65\x1f\x31\xd1\xbe\x79\xda\x10\x82\x23\xaa\x27\xdd\xdc\x93\x79\x58\xaf\xbb\x02\xb2\xc2\x3c\xda\x50\x66\x6d\x5b\x4a\xaa\xee\xc3\x52\xb2\x05\x5b\x3b\x2d\xa6\x87\x18\x0b\x12\x3a\xfb\xe6\x04\x82\x3e\xcc\x5d\x89\x60\xda\x2c\xff\xd8\x81\x9d\x4f\x20\x18\xda\x98\xae\x1e\x71\x54\xad\xb9\x05\x61\x2a\x55\x8c\x2d\xe0\xf9\xb1\x7b\x4e\xec\x37\x54\xb6\x40\xcc\x3d\x5d\x4b\xf5\xa1\x43\x7b\xf4\xb1\xed\x9d\xc4\x9e\x5b\xc7\x45\xbb\xce\xee\x16\x57\x19\x60\xfb\x8e\x6f\x3f\x87\xfe\xc4\xf4\x3d\x18\xb5\x0d\x8e\xef\xa7\xfd\x16\xe6\x3e\xbb\x6f\x3c\x76\x9e\xcc\x83\x8a\x13\xb7\x56\x8a\x42\x03\xce\xc1\x20\xa9\x0d\xdc\x58\x19\x74\x86\xe7\x4b\xcf\xb2\x54\xd1\xd5\x68\x4e\xa5\xfe\xf4\xa3\x6f\xb9\xa0\x9d\xdc\x35\x5c\x64\x75\x43\xe5\xc7\xda\xaa\x87\x18\x30\xa7\x7b\xd2\xde\xdd\xf4\xfb\xf8\x04\x5e\x97\xf9\x52\x7d\x46\x0a\x11\x56\xbd\x85\x49\xbf\x89\x05\xda\x77\x30\x71\xb1\x2d\x1c\x8b\x19\x11\xbc\x79\xa9\x28\x5b\xc9\x85\x5f\x92\x5a\x15\x4c\xa2\xf5\x93\x35\xea\x5b\x37\xe8\x45\xb3\x92\x0a\x01\x27\x63\x33\xa3\x5a\x7e\xaf\xd8\xda\x63\xc3\xb4\xd2\xac\xb3\x7f\xe6\xc4\x6c\x3a\xa8\x57\xfb\xdd\xd3\xd6\x3f\x1d\xcc\x28\x0f\xa7\x94\x07\x73\xca\xea\xec\xe0\x8d\x0e\x67\x62\x3b\x0c\x7d\x11\xf2\xf1\x96\xb6\x76\xf8\x54\x40\x01\x83\x40\x28\x9b\xe0\xb3\x87\x68\x04\x8a\xb2\xad\xbd\xfd\x1c\x3b\xb8\x10\x89\xfb\xcc\x67\x8c\x35\x8b\x02\x0b\xd8\x9f\x37\xb3\x19\xe5\x31\xe2\xea\x97\x5d\x83\x5f\xd8\x60\xbc\xe5\x60\xfb\xdb\x67\x7b\xbf\x86\xe2\x3e\x85\x7a\x68\xe6\xf0\xd5\xb3\xbb\xdb\x8f\xb9\xd5\x61\x4b\xdf\x70\x3c\xe8\x68\xab\x7b\x36\x77\x44\x11\x17\x44\xb4\x1c\x81\xe0\x0f\xfa\xd9\x7d\xda\xce\xf8\x97\xdb\x5f\xd5\x3b\xf4\xfa\x66\xdf\x45\xcc\xdb\x66\xe2\x18\x00\x71\x40\x55\xde\xd0\xdb\x66\x22\xa6\x9c\x4d\xf4\x87\x68\xb6\xee\x5a\xfa\xdf\xf9\x40\x9f\xb3\xaf\x0f\xca\x6a\xfe\xe0\xf7\x54\x40\xe8\x95\x98\xab\xc5\x26\x7b\x39\xcb\x70\x08\xba\xbd\xfd\x88\x7b\xf7\x18\x3d\x36\x58\xad\x3a\xdf\xca\x20\xf7\xd4\xdb\xb0\x43\xbf\x3f\x83\x43\x0e\xf8\xfe\x4c\x0b\x79\xef\x15\x98\xce\x77\x76\x53\x47\x60\x73\xb1\x20\xf1\xf7\x7a\xe0\xbb\x33\xbb\x21\x98\x02\x89\xff\x79\x9f\x9f\x69\xd7\xb5\xf7\x4e\xab\x61\x52\xb7\xc7\x67\xd0\x5d\x33\xde\x04\x71\xcb\x3e\xea\xd3\x33\xb8\x51\x5e\x0f\xa3\xaf\x46\xe6\x2e\xfd\x65\xd9\xdb\xc7\xcb\x00\xb6\x3d\x36\x2a\x8e\x8e\xfd\x36\x8d\xb7\xcb\xde\xa5\x83\xe3\xbf\x4d\xe3\xc1\x71\xe5\xcb\xfb\x89\xeb\x2d\x0f\x00\x4e\xba\xd4\x6d\x49\xbb\xf5\xc5\x19\x33\xd3\x66\xd6\x63\x68\x1e\x2f\xee\x8e\x24\x5b\xad\xba\x64\xef\xcf\xff\x14\x62\x6e\x04\xe0\x95\x98\x0f\x87\xdb\xb7\x2b\x51\xfb\x2e\x62\xee\xa8\x67\x2f\xc4\x3c\x7d\xa1\xf4\x5e\x7f\x05\x66\x5f\xc1\x80\xe5\xe5\x81\x5b\x9d\x86\x3c\x26\x26\xdb\x96\xd0\xf5\xf0\xcb\x66\xd8\x54\x2d\xf8\x80\x12\x3a\x0c\xe9\x41\x35\xf9\x0d\x96\x86\x98\xa8\xa8\x70\xfb\x65\xbf\xfd\x71\x45\xca\xa5\xce\x04\x61\x7e\xd0\x96\x8a\xe8\x6f\x04\x36\x18\xc1\xc0\x74\x0c\xa2\x87\x02\xb0\x14\x0c\x93\x81\xe6\x9e\x91\x11\x6a\x83\x78\x0f\xe4\xec\x70\x5e\x63\xcf\x8f\xa0\x9c\x76\x34\x98\xcb\x56\xf4\x87\x49\x2d\x9d\x3b\x3c\xa8\xe7\xc7\x25\xf8\x13\x9b\x89\x70\x86\x16\x6c\x72\x4c\xb5\x0f\xae\xc8\x44\xce\x6d\xdb\x11\xd5\x3e\xde\xe8\x3d\x5f\x9a\xc0\xe5\xff\x77\x7f\x69\xa2\xc5\x6e\xdb\x8a\x18\x54\x40\xd7\xcd\x24\x67\x62\x41\xf9\x31\xc5\x3c\xc3\x9f\x99\xf0\x05\x82\x6f\x0b\x78\xb2\xc7\x16\x98\x6c\x69\xf2\xdd\x15\x26\x2b\x63\xff\x0f\x0f\x3b\xdf\xe0\xa1\x57\xf4\xd1\xad\xce\xd4\x98\xb8\xef\x48\x04\x41\xaf\xb1\xe2\x6b\x8f\xc8\x74\xec\x39\x0a\x7e\xed\xc8\x0b\xba\x4f\x67\x6c\x17\x8d\x6c\xd6\x8c\x74\x6a\x74\x9d\x40\xb1\x27\xa3\xb7\x42\xa4\x57\xe4\x1a\x57\xca\x43\x64\xa3\x82\xe3\xf8\x6f\x41\xe0\xc2\x86\x92\xdd\x43\x62\xdf\xe5\xb8\x07\xa8\xd2\x2b\xfb\x0e\xfb\x16\x84\xd5\x0b\x7f\xb2\xaf\x3e\x0c\xa0\x7c\x80\xaa\x82\x61\x5d\x85\xa5\x7d\x07\xa8\x21\xca\xb9\x9d\x6f\x4b\x1d\x8d\xc7\xb0\xad\x91\xc6\x63\x58\x7b\xd0\xed\xe0\x54\xd5\xf7\xdb\xc1\x9f\x7f\xbe\xfd\x2e\xc5\x0c\xab\xfa\x2c\xe5\x7b\x66\x6e\xad\xbd\x8f\x06\xa6\xb1\x59\xe7\x6d\x20\xb6\xb8\xd8\x22\xd2\x93\xa9\xed\xfd\x96\xc5\xa1\x4a\xb9\x2f\x85\xba\x5b\x2b\xf7\x7f\x34\xca\xe7\x61\xa3\x9b\xfb\x55\xb3\xc9\xe6\xed\xd0\xcc\xdd\xeb\x40\xee\xff\xbc\xc7\x54\x14\x99\x08\x89\x72\x1d\x06\x94\x35\x6e\xb5\x95\xf4\x57\x62\xbe\xa9\xab\x4f\x15\xae\x3f\x8d\xc2\x3e\xd4\xc6\xda\x97\xc7\xb4\x24\x1f\x54\xd0\x6e\x22\x75\x22\x1c\xb8\xc4\xdb\x86\xff\x1a\x00\x0d\x1c\x6c\xe9\x6c\x6a\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27216, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xdc, 0x37, 0xc8, 0x1, 0xf8, 0xe9, 0xea, 0x1d, 0xa2, 0xc8, 0xa5, 0xb5, 0x6b, 0xc0, 0x93, 0x19, 0x8c, 0xc0, 0x39, 0x81, 0xed, 0xdb, 0x5a, 0x3a, 0xc2, 0xe5, 0xc0, 0x82, 0xf5, 0x32, 0x59, 0xc0}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27244, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x42, 0xda, 0x83, 0x5c, 0xfc, 0xcb, 0xc1, 0xb5, 0x12, 0x11, 0x1e, 0xd1, 0x8d, 0xef, 0xb0, 0xc6, 0x1e, 0x6f, 0x9a, 0x26, 0x90, 0xce, 0x9c, 0xfa, 0x97, 0x14, 0xfc, 0x17, 0x2e, 0xcf, 0xd6, 0x17}}
 	return a, nil
 }
 
-- 
2.43.0


From 63f5cda97ea893c734a9bc40745993073c6e66e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:19 +0000
Subject: [PATCH 17/45] fix: a list with one string, or not-a-number, survives
 the query string

---
 gengokit/httptransport/httptransport.go       | 35 ++++++-------------
 .../NAME-service/baron/NAME.pb.baron.go.tmpl  | 10 ++++++
 gengokit/template/template.go                 |  8 ++---
 3 files changed, 24 insertions(+), 29 deletions(-)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index 9cc4014..728215d 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -424,43 +424,31 @@ if err != nil {
 		// is repeated, we first attempt to unmarshal the string we're
 		// provided, and if that fails, we try to unmarshal the string
 		// surrounded by square brackets. If THAT fails, then the string does
-		// not represent a valid JSON string and an error is returned.
+		// not represent a valid JSON string and is taken as the only element.
 
 		// repeatedFieldType := strings.TrimPrefix(f.GoType, "[]")
 		repeatedFieldType := f.GoType
 		convertedVar := "converted"
+		elementErrorCheckingTmpl := errorCheckingTmpl
+		if !needsErrorCheck {
+			elementErrorCheckingTmpl = ""
+		}
 		switch repeatedFieldType {
 		case "uint32", "int32", "float32":
 			convertedVar = repeatedFieldType + "(converted)"
 		}
 		repeatedUnmarshalTmpl := `
 var {{.LocalName}} []{{if .StarExpr -}}*{{- end -}}{{.GoType}}
-{{- if and (.IsBaseType) (not (Contains .GoType "[]byte"))}}
-if len({{.LocalName}}StrArr) > 1 {
-	{{- if (Contains .GoType "[]string")}}
-	{{.LocalName}} = {{.LocalName}}StrArr
-	{{- else}}
+{{- if and .IsBaseType (not (Contains .GoType "[]byte"))}}
+if len({{.LocalName}}StrArr) > 1 || json.Unmarshal([]byte({{.LocalName}}Str), &{{.LocalName}}) != nil && json.Unmarshal([]byte("[" + {{.LocalName}}Str + "]"), &{{.LocalName}}) != nil {
 	{{.LocalName}} = make([]{{if .StarExpr -}}*{{- end -}}{{.GoType}}, len({{.LocalName}}StrArr))
 	for i, v := range {{.LocalName}}StrArr {
-	` + fmt.Sprintf(fType, "converted", "v") + errorCheckingTmpl + `
+	` + fmt.Sprintf(fType, "converted", "v") + elementErrorCheckingTmpl + `
 		{{.LocalName}}[i] = ` + convertedVar + `
 	}
-	{{- end}}
-} else {
-{{- end}}
-	{{- if (Contains .GoType "[]string")}}
-		{{.LocalName}} = strings.Split({{.LocalName}}Str, ",")
-	{{- else if and (and .IsBaseType .Repeated) (not (Contains .GoType "[]byte"))}}
-	err = json.Unmarshal([]byte({{.LocalName}}Str), &{{.LocalName}})
-	if err != nil {
-		{{.LocalName}}Str = "[" + {{.LocalName}}Str + "]"
-	}
-	err = json.Unmarshal([]byte({{.LocalName}}Str), &{{.LocalName}})
-	{{- else}}
-	err = json.Unmarshal([]byte({{.LocalName}}Str), &{{.LocalName}})
-	{{- end}}
-{{- if and (.IsBaseType) (not (Contains .GoType "[]byte"))}}
 }
+{{- else}}
+err = json.Unmarshal([]byte({{.LocalName}}Str), &{{.LocalName}})` + errorCheckingTmpl + `
 {{- end}}`
 
 		var jsonConvTmpl string
@@ -468,9 +456,6 @@ if len({{.LocalName}}StrArr) > 1 {
 			jsonConvTmpl = singleCustomTypeUnmarshalTmpl + errorCheckingTmpl
 		} else {
 			jsonConvTmpl = repeatedUnmarshalTmpl
-			if repeatedFieldType != "string" {
-				jsonConvTmpl = repeatedUnmarshalTmpl + errorCheckingTmpl
-			}
 		}
 		// log.Debugf("[UnmarshalNonBaseType] = %v", jsonConvTmpl)
 		code, err := ApplyTemplate("UnmarshalNonBaseType", jsonConvTmpl, f, TemplateFuncs)
diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index f81361c..ff39e25 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -646,6 +646,16 @@ func CtxValuesToSend(keys ...string) httptransport.ClientOption {
 						values.Add("{{$field.QueryParamName}}", fmt.Sprint(v))
 					}
 					{{- end}}
+					{{- if eq $field.GoType "string"}}
+					if len(req.{{$field.CamelName}}) == 1 {
+						// a single string could be taken for JSON
+						tmp, err = json.Marshal(req.{{$field.CamelName}})
+						if err != nil {
+							return errors.Wrap(err, "failed to marshal req.{{$field.CamelName}}")
+						}
+						values.Set("{{$field.QueryParamName}}", string(tmp))
+					}
+					{{- end}}
 				{{else if or (not $field.IsBaseType) $field.Repeated}}
 					{{- /* an unset message or optional enum is not sent */ -}}
 					{{if and $field.StarExpr (not $field.Repeated)}}
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index 87507a7..669442e 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -1,6 +1,6 @@
 // Code generated by go-bindata. DO NOT EDIT.
 // sources:
-// NAME-service/baron/NAME.pb.baron.go.tmpl (27.244kB)
+// NAME-service/baron/NAME.pb.baron.go.tmpl (27.622kB)
 // NAME-service/cmd/NAME/main.go.tmpl (1.381kB)
 // NAME-service/cmd/NAME-client/main.go.tmpl (2.923kB)
 // NAME-service/server/endpoints.go.tmpl (230B)
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x5b\x6f\xe4\x38\x76\xf0\xb3\xf4\x2b\xce\x08\x73\x91\xfc\x95\x55\xf3\x05\x48\xb0\xf1\xc0\x01\xba\xdd\x9e\x99\xde\x1d\x77\x7b\x6d\xf7\xce\x43\xa3\xd1\xcb\x2a\xb1\xaa\xb8\xd6\xad\x49\xca\x76\x6d\xa5\x5e\xf2\xb2\x01\x12\x20\x40\x9e\xf2\x10\x2c\xf2\x94\xd7\x20\xcf\xf9\x3d\x3b\xc1\xfe\x8b\xe0\xf0\x26\xaa\x4a\xaa\x4b\xcf\x6c\x10\x04\x69\x60\xc7\x25\x8a\x3c\x3c\x3c\x3c\x3c\x77\x6a\xc7\x63\xb8\xa8\x32\x0a\x73\x5a\x52\x4e\x24\xcd\x60\xb2\x84\x09\xe1\x55\x99\xc2\x8b\xd7\xf0\xea\xf5\x1d\x5c\xbe\x78\x79\x97\x86\xe3\x31\xdc\x50\xde\x94\x25\x2b\xe7\xba\x03\x3c\xb2\x3c\x87\xea\x81\xf2\x47\xce\x24\x05\xb9\x60\x02\x66\x2c\xa7\xaa\xf3\xaf\x28\x17\xac\x2a\xcf\x60\xb5\x4a\xcd\xef\xf5\xda\x7b\x01\x2f\x88\xa4\xfe\x5b\x7c\x5e\xaf\xc3\xb0\x26\xd3\x7b\x32\xa7\xf8\xe6\x5a\xff\x7c\x45\x0a\xf5\x66\x3c\x86\x3b\x3b\x07\x4c\xab\x52\x12\x56\x0a\x28\xa8\x5c\x54\x99\x00\x59\x41\x41\xee\x29\xb0\x32\x63\x0f\x2c\x6b\x48\x0e\xb4\xcc\xea\x8a\x95\x52\xc0\x8c\x57\x05\x08\xca\x1f\xd8\x94\x8a\x11\xa2\xc1\xe9\x87\x86\x0a\x09\xa4\xcc\x80\x53\x51\x57\xa5\xa0\x20\x97\x35\x55\x90\xb0\x2b\xae\xa8\x12\xb4\x85\x32\x02\x22\xe0\x91\xe6\x39\xfe\xa5\xe5\xb4\xca\x28\x17\x08\x00\xe1\x65\xd4\x3c\xcf\x2a\x6e\x06\x2a\x68\x23\xd5\x40\x90\x52\x33\xa8\x1a\x0e\xa2\xa9\xeb\x8a\x23\xa5\x25\x27\xa5\xc0\xdf\x88\x19\x23\x39\xfb\x2d\x91\xac\x2a\x11\xda\xac\xe2\x05\x91\x22\x0d\x43\x56\xa8\x1e\x71\x18\x44\x93\xa5\xa4\x22\x0a\x83\x08\xd7\x4e\x9f\x24\xfe\x54\x68\xb0\x72\x3e\xfe\x8d\xa8\x4a\x6c\x98\x15\xaa\x9d\x55\xfa\xbf\x63\x56\x35\x92\xe5\xf8\x50\x52\x39\x5e\x48\x59\xdb\xdf\x0d\x57\xcd\x42\xf2\x69\x55\x3e\x98\x9f\xac\x9c\x8b\x28\x0c\x83\x68\xce\xe4\xa2\x99\xa4\xd3\xaa\x18\xcf\xab\xd3\x7b\x26\xc7\xf8\x3f\x4b\x8b\x28\x0c\x48\xb9\xac\x27\x10\xcd\xab\x6a\x9e\xd3\x74\x5e\xe5\xa4\x9c\xa7\x15\x9f\x8f\x6b\x5e\xc9\x6a\xd2\xcc\xc6\x6a\xfd\xe3\xfb\xb2\x7a\x2c\xc7\xaa\x77\x14\x06\x59\xc3\xd5\x22\x8f\x18\xda\x0e\x89\xc2\x80\x16\xb5\x3c\x66\x5e\xd3\x3f\x0a\x83\x19\xa3\x79\x56\x10\x71\x7f\xc4\x68\x6f\x4c\x14\x06\x42\xf2\x66\x2a\x8f\x18\x6e\x07\x44\x61\x20\x59\x41\x85\x24\x45\x7d\xc4\x70\x6f\x4c\x14\x06\x8f\x9c\xd4\x35\xe5\xe2\x08\x00\xed\x90\xed\x2d\xe5\x2c\xcf\xc9\xb8\x68\x9e\xa2\xee\x9b\xfa\x7e\x3e\xa6\x9c\x57\x5c\x71\xda\x8e\x89\x1c\xe7\xa9\x16\xcb\x7e\x3b\x06\xa8\x1f\x88\xc8\x6a\x75\x0a\x6c\x06\xf4\x03\xa4\x17\x55\x39\x63\xf3\xf4\xce\x9d\x84\x88\xe4\x79\x04\x51\x49\xa4\x88\x60\xbd\xee\xe2\x86\xad\xa7\xac\x52\x7f\xd3\x39\x72\x38\x82\xa2\x65\xb6\x5e\x1f\x04\x75\xce\xeb\xa9\x85\xba\x85\xa7\x7a\x39\xf8\x66\x5c\x50\x49\x32\x22\xc9\xe6\xa4\x07\x4f\x89\xf0\xdb\x13\x3f\x70\xbe\x5c\x07\x8b\x8e\x37\x17\x9e\xdd\x23\x00\x60\xf7\xe8\x20\xb2\xb4\xc4\xc6\x5f\x47\x4c\x81\xdd\x3b\x38\x26\x61\x18\x3e\x10\x0e\x71\x18\xbc\x87\x73\x98\x15\x32\xbd\xad\x39\x2b\xa5\x7e\x56\x02\x2c\xbd\xa8\x8a\x9a\x70\xaa\x9b\x8c\xf4\x49\x9f\xc9\x8a\xe9\x96\xce\x32\xd3\x57\xf4\xf1\x96\xf2\x07\xca\xf5\x4b\x2d\xcd\xd2\x57\x55\x7d\x91\x57\xa2\x6d\x4d\x2f\xaa\x7a\xa9\x1f\x34\xf3\xa6\xdf\x73\x52\x87\xc1\x78\x0c\x66\x3f\x2d\x1b\x6a\x19\x8f\x5d\x95\x48\x4a\x9f\x95\x6a\x5c\x2b\x64\xd2\x17\xe6\x27\x36\x1b\xf1\x91\x5e\xe2\x5f\x6c\xb0\x47\x3a\xbd\x55\x3f\xb0\xc9\x3b\xa6\xe9\x9d\xfd\x8d\x2f\xda\xe3\x87\xbd\x59\x39\xff\x15\xc9\x1b\xb5\x6e\x4f\xae\xa4\x5f\xe3\xef\x2b\x22\xee\xc3\x24\x0c\xc7\x27\x07\xfd\x83\x4b\xab\x93\xc0\x36\xed\xff\x37\x56\x1a\xf4\x65\x09\x04\xf5\xcd\x03\xe5\x23\x60\xf2\x0b\x01\x8d\xa0\xb3\x26\x57\x6a\x6a\xd6\x94\x53\xa4\x82\x00\xb9\x20\x12\x4a\x8a\x5a\xaa\x82\xaa\x56\xb6\x01\x54\x38\xb6\xa6\xfc\xd4\xaa\x01\x04\x38\x21\x82\x89\x14\xbe\xae\x38\xd0\x27\x52\xd4\x39\x1d\xc1\xb2\x6a\xa0\x60\xf3\x85\x84\x9a\x08\x54\x91\x1e\xc2\xb2\x02\xe2\x26\xd2\xf3\xd4\xbc\xca\x9a\x29\x15\x08\x8e\x94\x8a\x03\xd2\x6f\x49\x99\xe5\x88\xe3\x23\x93\x0b\xa0\x64\xba\x30\x9a\x1e\x62\x3b\x7b\x02\x8f\x8c\xd3\x0c\x9a\x1a\x91\x24\x20\x6a\x3a\x65\x33\x36\x85\x9a\xc8\x45\x0a\xf1\x4b\x89\x00\x99\x80\x9a\x57\x13\x32\xc9\x97\x40\xa0\x60\x42\x6a\x2b\x01\x32\x2a\xd8\xbc\xc4\xa1\xac\x7c\xa8\xee\x51\xdd\x53\x40\x66\x63\x53\xea\xac\x0a\x85\x22\x45\x38\xed\x0a\x34\x0f\x00\x6b\x29\x99\x26\xe1\x78\xec\xa8\x3b\xcd\x19\x2d\x65\x97\xba\xb2\x82\x69\x95\xe7\x74\x2a\x3d\x03\x25\x5f\xc2\xb4\x2a\x35\x38\x9a\x79\xe6\x0a\x2b\x71\x41\x08\x50\xb0\x72\x9e\x6b\xc3\x44\xd3\x8a\x21\x85\x0b\x8a\x78\xf8\xf8\xb2\x52\x52\x3e\x23\x53\x3a\xb4\x13\x08\xcc\x4d\xd6\x6f\x24\x35\x38\x59\x6b\x95\x28\x63\x01\x0f\xe0\x85\x59\xcf\xb4\x2a\x26\xac\x54\x74\x2a\x0c\x8a\xde\xc6\x8e\x8c\x29\x25\x1b\x5e\x02\x93\x48\x57\x44\x70\x4a\xf2\x9c\x72\xb4\x98\x88\x45\x36\x0d\xd5\x72\xb6\x08\xba\x0a\x83\x37\xa5\x5b\x1f\xcd\x56\xab\xd4\x8e\xd0\x26\xa0\x91\x04\xab\x15\x27\xe5\x9c\xc2\xa7\x0c\xce\xce\xc1\xf5\xb9\xd2\x5b\x86\x72\x6c\xb5\xfa\x94\x99\x31\x76\x16\x00\x70\x4b\x4d\x6d\x63\xb8\x5a\x69\xe1\xaa\xad\x4b\xdb\x2c\xf6\x4f\x81\x0c\x0c\xb1\xb7\x88\x04\xbc\x49\xe3\xa9\x7c\x02\x63\xa5\xa1\x6a\xc0\xbf\x23\x64\x98\x93\xd5\xea\x9b\x0a\x11\x83\x4f\x59\x7a\xa3\x4d\xd0\xbb\x65\x6d\x17\x98\x40\xbc\xd1\x43\x1b\xa6\x5e\x97\x91\x16\x70\x09\xac\xc2\xc0\xda\xad\xaa\x0d\x11\xa5\x69\xcf\xca\x11\x19\x9c\x3c\x09\x03\x54\x56\x9c\xc3\x27\xe7\x50\xb2\x1c\x21\x04\x66\xbf\x4a\x96\x2b\x20\x61\xb0\x0e\x6d\x9b\x85\x9e\xee\xc5\x29\x19\x21\xbc\x70\xed\xc8\x89\xc4\xbc\x22\xf7\x1e\x79\xc2\xd5\x4a\x1d\xe4\x4f\x25\x45\x44\xd3\x35\x76\x3e\x05\x9f\xca\x9f\x4a\x3a\x44\x68\x84\xd5\xb7\x32\x81\x44\x97\xb4\x97\x4d\x92\xed\xed\x86\x95\x5b\x1c\xee\x5f\xff\x2e\x59\xc7\xc0\x9d\xa8\xd5\x3a\x81\xd8\x12\xc3\x6f\x56\x14\xf3\xb6\x23\xe0\xf4\x03\x2e\xc4\x40\x48\xe3\x7d\xbb\x1d\x06\xc1\x83\xdb\x3b\xe1\xef\x1d\xa2\xa6\x50\x49\xc2\xa0\x67\xd7\xb6\xb7\x0d\xf7\xcd\xb6\x3e\xe8\xed\x08\x90\xad\x5b\xdd\xec\xef\x0d\x2a\xc7\x67\x79\x7e\xf9\x34\xa5\xb5\x54\x7a\x4a\x68\x11\xeb\x28\xa5\x34\x14\xba\x2c\xe6\x6c\xda\x17\x02\xd4\x36\x12\x84\xe2\xd9\x04\x8e\xd4\x57\x2c\xcb\x72\xfa\x48\xb8\xf6\x02\xdf\x08\xeb\x17\xa2\x13\x54\xd7\xf9\x12\x45\x0c\x8a\x4d\x89\xc0\x0b\xd7\x5b\x79\x5d\xf4\x81\xf2\xa5\xdb\x36\x3c\x2f\x28\x41\x8c\xdb\xa6\xe0\xbd\xae\x51\x6b\x90\x3c\x5f\x8e\x5c\x3f\x01\x53\x52\xc2\x84\x2a\x5d\x43\x33\x1c\x36\x59\x42\x89\x64\x97\x15\xb6\xd3\xa7\x69\xde\x64\x34\xd3\x5e\xe0\x84\x22\x0a\xb8\xe6\x9a\x66\xe9\x16\x35\xe2\x16\xa7\x11\x44\xb7\x92\xc8\x46\x44\x23\x88\xae\x59\x39\x8f\x12\x77\xee\x4f\x1c\x41\x92\xc1\xf1\x0e\x43\x8f\x2a\xa3\x16\x9b\x34\x4d\x85\x32\x0b\x14\xf3\xb0\xd2\x34\x9f\x9d\x43\x41\xea\xb7\xfa\xd5\x3b\x4d\xfe\xd5\x1a\xd9\x6b\xf3\xc0\xf4\x9c\x96\x20\x08\x22\x8f\x8d\xa2\x33\x58\xad\x47\x61\xe0\x9b\x91\xeb\x30\x0c\x50\xd7\xbf\x47\x54\x10\x8c\x06\xe9\xd0\xc2\x99\xd8\x0c\xde\x8f\xa0\xba\xc7\xd7\x16\xb1\xb7\xf4\xe9\xdd\x57\xf0\x49\x75\x8f\xd8\x06\x41\x4d\x4a\x36\x8d\x5b\x0b\x6f\x16\x47\x97\x16\x84\x5d\x37\x7c\xf1\x99\xf8\x02\xb2\x8a\x0a\x28\x2b\x09\xf4\x89\x09\xf9\x15\x08\x4a\xfd\x8d\x77\x3e\xa5\x32\xe9\x11\xa9\x24\x31\xfc\x9c\xd1\x9c\x4a\x1a\x5b\x0c\xd4\xbb\x76\x01\xac\x9c\xb6\xe8\xdb\x3e\x70\x38\xa1\xd8\x4c\x81\x38\x3f\x87\x0e\xc9\x14\x84\x20\xe8\x15\xa5\x70\xee\x61\x1e\xf7\x76\x41\xdc\x83\xf5\x26\xc9\xf5\xb1\xfb\x8e\x4c\x68\x4e\xb3\x96\x1b\x74\x08\x65\x4e\xa5\xe5\x5d\xe4\x77\x47\x3d\xc5\xc2\x8f\x0b\x5a\xba\xb7\x95\xc7\xae\x06\x98\xe6\xba\x91\x3e\x65\xe6\x20\x34\xba\x33\xe8\xb8\x0c\xd1\xc1\x1d\x36\x45\xa3\x86\xb3\xa9\x32\xb3\xda\x65\xc0\xe3\x82\x4d\x17\xea\x0c\x09\x5a\xf6\xa1\x60\x34\xb9\x19\x6d\xed\x98\x8a\x1b\x3d\xbe\xbd\x2a\x3c\x24\xb1\x66\xe0\xd1\xb6\x14\xee\x11\xcc\xe1\xd0\xba\x3e\x5a\x36\x6d\x21\x35\x32\xeb\x54\x14\xe7\x74\x4a\xd9\x03\x8a\x26\xaa\x97\x58\xcd\x3a\xeb\x4e\xe1\x96\x52\x07\xc6\x83\xa2\x5e\x58\x43\xd4\x20\x7c\xf9\x84\x88\x22\x47\x66\x54\x12\x96\x0b\xb4\x93\xed\x71\x42\x20\xd6\xd8\x25\x39\x93\xcb\x74\x97\x08\xe9\xac\x3d\x2e\x7e\x04\x45\xff\x4f\xce\xfc\xef\x91\x33\x9d\x61\x23\x38\x4a\xec\x1c\x1e\xa0\x38\xd4\xf5\xfc\xe6\xe6\xfa\x02\xd7\x49\xf9\xd1\xbe\x27\x9a\x71\xde\x70\x0c\xd7\x8a\xd6\x18\x70\xfb\x03\xe4\x81\xb0\x9c\x4c\x72\xaa\xdd\x86\xf9\xcd\xf5\x05\x0c\x38\x03\xe6\x38\x75\x21\x3b\x0f\x51\xb4\xb2\x61\x04\x95\xb2\x1d\x04\x9e\x87\x4e\x2c\x46\xb1\x37\xe5\xda\xb4\x48\x86\x26\xc2\xed\x12\x5e\x47\x81\x3c\xf1\xf6\xdd\x30\x24\xe4\xde\xbe\xb7\xcf\xe9\xac\xe2\x34\x46\x6c\xaf\x4c\x4c\xe9\xae\x32\xd6\x67\x32\xc2\x5d\xdb\x98\xe7\x1c\x0d\x27\x5a\x66\x71\xa7\xd9\xad\x27\x4d\xd3\x44\x05\x3a\x56\x2b\xb8\xab\xbe\xab\x1e\x29\x6f\x19\x11\x49\x85\x9b\x6b\x4d\xc3\xcf\x11\x23\x7c\x49\xf9\x0a\xdd\xa4\xbd\xdc\xbb\x5a\x59\x98\x8e\xe5\xce\xa0\xbb\x2c\x17\xa2\x89\x91\xa1\x1d\xe9\xfb\xb8\x14\x4d\x91\xe0\x85\x8a\x94\xe3\xfa\xbd\x1e\xc6\x3a\x56\x1d\x2e\xcb\xde\x0e\xc6\xd7\xc1\x1e\x1d\x4a\xa4\x69\x8a\xc3\x90\x76\x1b\xcc\x8f\xc2\xb7\x5d\xf0\xa6\xeb\xec\x8c\xf3\xfe\xfd\x76\x86\xbe\xd6\x72\x1e\x9c\x3f\x81\xbb\xba\x45\x64\x80\x0d\x2a\x9b\x78\x88\x67\xd0\x1b\x37\xcb\x04\x2a\x50\xd4\x7a\x38\xca\xaa\x5d\xee\xe1\x2b\xdd\x8b\xaa\x3a\x6c\xb1\x80\x93\x76\xaa\xa4\x05\xbf\xc7\xff\x45\xf7\xe8\xa7\x75\x80\xdf\xa3\x8f\x54\x77\x5c\xa8\x2d\x4a\xaa\x55\x28\x6e\xf2\x9d\xaa\x23\x3d\xe1\xfa\x23\x9d\x60\x43\x61\xcd\xf2\xfb\xc9\x3b\x1e\xc3\xae\xd3\x01\x0c\xc5\xa1\xe3\x09\x15\x23\x4e\xf5\x00\xd3\xe3\x6b\xdc\x1f\x15\x27\xc2\x9c\x0e\xe5\x52\xe8\x30\x92\x11\xa1\xdb\x6c\x66\xbd\x5d\x0c\xe6\x60\xac\x8a\x9f\x66\x55\x41\x58\xb9\xab\x73\x0a\xd7\x9c\x15\x84\xb3\x7c\x69\xc3\x5b\x7e\x2c\x4c\x4b\xe4\x5d\xeb\x88\xdf\x6f\x33\x07\xae\xe5\x86\x7e\x68\x99\x51\xb9\xdd\xde\x53\x37\xf0\xa1\x1c\x6d\x33\xe6\x10\x47\xdb\xed\xe4\x87\x1d\xdb\x74\x59\x1e\xbc\x4d\x3b\x65\x54\xef\x3e\xe9\x11\xb6\xcb\xd0\x46\xed\xdf\x02\x33\x85\xda\xb0\x1d\xdb\x5a\xe7\xcb\x83\xf6\x69\xe7\x42\xfa\x36\xaa\x2f\x12\xb2\x6b\xa7\x44\x8d\x5b\x65\x47\x1d\x70\x8e\xbc\xcd\x12\x75\xdf\x6e\x7d\x4b\x73\x0c\xab\x87\x9a\xd1\x7a\x15\x69\xbf\x00\x2a\x32\xb0\x69\x9c\xf4\xea\x45\xb2\xd9\x01\xf1\x45\x31\x7a\x3f\x82\x87\xd6\xe2\x2b\x9c\xa9\xfa\xd0\x09\xc1\xa8\x6c\x34\x85\x7b\xba\x54\xdb\x9d\xa1\x4d\x3b\xa9\xe4\x02\x69\x6c\x67\x31\x79\x5c\x88\xef\x13\xe3\x7e\x60\xd7\x3c\x87\x1c\xf7\xcb\x40\x21\xc6\xe9\x52\xe1\xd6\x0b\x52\x56\x25\x9b\x92\xfc\x5b\x4a\x32\xca\x7f\x41\x97\xd6\x37\xc1\x89\x44\x65\x82\xc0\xd2\xb8\x7a\x16\xc4\x74\x4a\x6d\xec\x83\x32\xb9\xa0\xdc\xcc\x8c\xef\x91\x14\xe7\x6e\xad\xdf\x33\xb9\x50\x79\x08\x24\xd1\x48\xad\xf5\xed\x97\xef\x92\xbd\x1d\x07\xb0\x8b\xef\x93\x16\x82\xb1\xfa\xcd\xf6\x4d\xe5\x93\xd2\xc1\xd6\x06\xdc\xfd\x4f\xed\xa3\x8e\x34\x1f\x6d\x57\xbe\xa2\x8f\xde\x68\x3d\xbd\xca\x3a\x98\xd0\x11\x4c\xc8\xf4\x1e\xb7\x67\x69\xcf\x8c\x0e\xd1\xe3\x5a\x4b\xaa\x32\x1e\x29\xbc\x94\xb8\x8f\x26\xd8\x6f\xd8\x95\x4d\x18\xfa\x6c\x76\x0b\x4c\x2c\x5b\x56\x90\x31\x92\xeb\x80\x77\x4e\x24\xe5\x30\xc5\x6c\x14\x3a\xe1\xd4\x87\xa9\x19\xb4\x83\x5d\x8c\xaf\xb5\xfa\x4c\x35\xbe\x17\x55\x59\xee\x30\x4e\x75\x27\x6b\x9c\xc6\x03\xd6\xa9\x7f\xe4\xd0\x42\xd8\x8c\xb5\x06\x5e\x6b\x7d\x3f\xc7\x93\x66\x43\xae\xdd\x22\x8b\x60\xdb\xab\xf1\x03\xac\xad\x0c\x0c\x1e\x08\xef\x13\x3d\xd6\xd4\xdb\x76\x49\xc3\x60\xd5\x6f\x50\xba\x21\xe7\xdb\x96\xa5\xa1\x9a\x62\x4f\x24\x94\xf5\x3c\xcd\x22\xd6\xeb\xb4\x2f\x02\x1c\xb9\x7e\x76\x8e\x68\x97\x65\xd9\x9a\x9e\x2f\xe8\x3e\xd3\x73\x8f\xf4\xd2\xe1\xb6\xa0\xb5\xcd\xf1\x31\x71\x34\x88\x95\x5f\xa9\x88\x6c\xec\xd4\xf6\x97\xfd\xe1\x0e\x90\x1d\x24\xf6\x9a\xea\x70\x6a\x40\x39\x9c\xed\xd8\x33\xcc\x7b\xec\xa0\xf9\xa8\x9d\x37\x58\x5b\x61\x8b\x42\x16\x69\x00\xe6\x44\xfd\x78\xf3\x65\x87\x5e\x7c\x41\x0f\xd1\x8b\xbb\x35\xdd\xa1\xe6\x8b\xd1\x41\x03\x7a\x51\x0b\x05\x73\x6a\x5f\xd0\x23\xf5\x22\x2e\xe6\x46\x21\x73\xa0\x62\xc4\xae\xce\x88\x41\x75\x7d\x94\x6a\xac\xf3\x65\x9f\x6e\xf4\xb7\xed\xc7\x9b\x33\xc3\x56\xe7\x65\x79\x80\xd5\xb9\x7f\x43\x3c\xe3\x73\xc7\x0e\xef\xb4\x3a\x3b\xbb\xb6\x6b\x1d\xfd\xc6\x8c\x59\xe2\x61\x5b\x76\x6c\x7a\x67\xb7\xd5\x69\xb0\x50\xda\x58\xdc\x55\xbe\x21\xa3\x4f\x4a\x9f\x26\x30\xf3\xe0\x39\xd1\x8c\xba\x03\x4a\x7c\x4f\x97\x02\xde\xbe\xb3\xe1\xbf\x3d\xf0\x0e\x4a\x8f\x15\x19\x9c\xec\x33\xa2\x94\x6e\xa8\x09\xe3\xed\xe4\x61\x60\x83\x81\xf7\xad\x69\xa5\xd0\x5b\x99\x18\xd9\x83\x0d\x04\x4e\xe5\x53\xaa\x68\x12\xdf\x27\xa9\x09\x7a\x26\x5f\x81\x0d\x08\x06\x1a\xb0\x8b\x8a\xa8\x47\x6d\xc8\xb8\x20\x18\x0a\x51\x84\xa9\xde\x75\xac\xb6\x93\x22\xc3\xe0\x9a\x5d\xc0\xcf\x2b\x56\xc6\x27\x45\x36\x6a\x9b\xae\x71\x4c\xac\x46\x62\x68\x25\xb1\xe0\x0c\x65\xd0\xaa\x31\x91\x35\xbd\x93\x87\xc6\xcd\xbe\xbd\xbb\xbb\x36\x7e\x86\x6d\xdb\xff\x6f\x1c\x86\x2a\x69\xaf\xa9\x5c\x2a\xf6\x82\x73\x88\x48\x5d\xe7\x6c\xaa\xca\x54\x54\xe5\xdf\x57\x30\x5d\x10\x2e\xa8\x3c\x6f\xe4\xec\xf4\x67\x91\x0b\xb7\xe1\xac\x26\x74\x60\x72\xf3\xc8\x58\x0b\xd3\xa2\xce\xec\xfe\x30\x1c\x02\xab\x4a\xa8\x39\xcd\xe8\x8c\x95\x34\x53\x15\x16\xc2\x9c\xb9\x8d\x69\xf6\x06\xdf\xba\x05\x3e\xdd\xe0\x9b\x5f\xfa\x61\x6d\x19\x36\x83\x54\xc1\x57\x66\xbf\x27\xb7\x36\xe2\x40\xc8\x3b\x6f\xdf\x0d\x43\x57\xfb\xdf\xf7\xda\x44\xe4\xf4\x1c\x68\xd7\x8a\x4e\x40\xae\x7f\xd0\x25\x4a\x72\x2d\x6e\x78\x4c\xbd\x87\xe1\x21\xcf\x66\x92\xf2\x78\xf3\x8d\xbc\x68\xb7\x36\xf6\xb6\x39\x51\x80\xb6\x57\x79\x50\x38\xd0\x44\x89\x54\xe8\xaf\x40\xc2\x14\xcd\x13\x9a\x53\x37\x55\x83\x38\x24\xa1\x67\x51\x98\x6c\xc6\xd9\xf9\x20\x99\x5d\xd7\x09\xd6\x8d\x94\x73\x04\x68\x86\xa5\xcf\x75\x93\x89\x75\x17\x76\x5c\x8c\x46\x9a\xe9\x8e\x15\xbe\x13\xf8\x6b\xb8\xab\xde\x60\x05\xe3\x7a\x1d\x25\xe9\x35\x91\x8b\x4e\x1f\x6c\xb8\xa3\x45\x8d\xf6\xb4\xea\x61\xd9\x69\xa0\x1e\x4c\x05\x1b\xbb\xd1\x46\x83\xd1\x96\x81\xe3\xec\x3a\x5c\x9e\x37\xa5\xca\xb6\x38\xf5\xa0\x3b\xea\x1d\xc5\x8e\xdf\xe8\xa4\x99\x55\xc3\xfa\x75\x5f\xe0\x31\x50\x79\x84\x36\x2e\xe7\xff\x34\x42\xa3\x30\x46\x95\xcf\x34\x3a\x3b\xa7\x3c\x0e\x6d\x16\xd8\x3c\x9b\x9d\xf1\x7b\x7c\xcf\x47\xe8\xb5\x64\x74\x46\x9a\x5c\xa2\xb6\xd3\x0c\x82\x27\x52\x85\x25\xab\x19\x6c\xca\x82\x11\x10\x98\x54\x99\x72\x1c\x51\x36\x68\xb3\x1f\xdd\xc7\x48\xcd\x13\x39\x8f\xf3\x01\xa5\x2c\x82\x52\xed\xa9\xc2\x2e\x4e\xb4\x5f\x43\x40\xa8\xdc\x37\x20\x3d\x10\xd4\x9f\x7f\xf9\x65\x0a\x2f\x4d\x9e\x0c\x7b\xfa\xf1\x54\x7d\x6e\x28\x57\xa5\xd5\xd8\xa3\xe6\xd5\x03\x43\x97\x78\xa1\xde\x60\xd9\x40\x9e\x63\x32\x5e\x61\xab\xd3\x93\xd8\xaf\xb5\xc9\x7c\xd0\x08\xc5\x83\x8e\xab\x48\xaf\x08\x17\x0b\xa2\x4a\xc2\x2c\xfe\x85\x6e\xc2\x7c\xbe\x68\xa6\x53\x4a\x33\xa1\x7d\xb0\x9f\xdf\xbe\x7e\x65\x2a\xb4\x33\x5b\x4e\x6d\x9d\x38\xb5\x56\x87\x0e\xa6\x4a\x87\x97\xa5\xd3\xff\x58\x20\xcf\x47\xd6\x35\x74\x2b\x6b\x5f\x76\xa0\x01\x2b\x85\xa4\x24\xb3\x34\xd3\x42\xd2\x97\x10\x7d\x86\x88\xab\x24\x19\xc1\xa3\x2e\x80\xeb\xb2\x81\xb2\x19\x71\x57\x47\xf0\x1e\x8f\x9f\x4f\x12\x2d\x7e\x30\x1b\x59\x53\xbe\x52\xbb\x78\x86\x6b\xb1\x1b\x8a\x96\x08\x9b\x59\x6a\x21\x01\xb5\xa2\xc5\x2e\x71\x97\xb6\xad\x9e\x65\x33\xc0\x57\xcf\xd5\x94\x66\xe8\xa5\x0e\xb3\x3a\x40\x76\x1c\x92\x3b\x4e\xbe\xb2\x33\x60\xb7\x73\x4f\xe7\x22\xda\x70\xee\xc0\xd9\x40\x41\xf0\x98\x6a\xb6\x89\x93\xf4\x96\xca\x38\x32\x82\xf0\xf4\x6e\x59\xd3\x68\xe4\xab\x3c\xbd\x80\x85\x65\x32\x1f\xff\xae\x78\xb0\x7c\xd8\xae\x03\xad\x0e\xcf\xe4\xb0\x30\x4c\x4f\x11\x2b\xc2\x06\x9b\xb8\xdc\x8f\x7a\x7a\xa6\xdf\x50\x19\xdf\xdb\xac\xe1\x3a\x0c\xd4\xd1\x38\xd3\x25\xab\xa9\x66\x87\x97\x68\x3a\x96\x24\xf7\x94\x84\xc2\x5d\x4c\x77\x60\xed\xb1\x59\x8b\xb8\x02\x7e\x0e\x62\x6a\x20\xe3\x6b\xe3\x3e\x3e\xa6\x8a\x29\x0c\xc6\xd8\x31\x71\x8d\x31\x52\x3b\x41\x79\xd3\xf2\x9d\xf6\x65\x78\x3c\x69\x66\xf0\xf6\x1d\x56\xe1\x26\x86\xd7\x57\xa1\xb2\xd5\x1e\xc1\x67\x21\x17\x1d\xb7\x7c\xf6\xa6\x34\x3b\x8b\x10\x46\xf0\xf9\x63\xf2\xd5\x66\xf4\x5c\x5b\x29\x82\xfd\x96\xc2\x39\xfc\xec\xff\xff\xe5\x5f\x68\x16\xca\x69\x89\x63\x12\xf8\x2b\xfd\x0e\xbb\x06\x88\xc6\x39\x4c\x9a\xd9\xdb\x33\x6c\x7c\x67\xd4\x9c\x91\x95\x58\x52\xa2\xe8\x36\x8b\x23\x2b\x1d\x00\x17\xa5\xb2\xbc\x67\x18\xf8\xc2\x24\x6f\x8d\xe6\x0e\x94\x55\x79\x8a\x7c\xe5\x0c\x79\xec\x18\x8d\x10\xb8\xc9\xe0\x1a\xa8\xa6\x2a\xf8\x15\x7d\x8c\x1f\xf5\xb9\x50\x34\x52\x32\xd4\x5f\xbb\xad\x29\x58\x85\x81\xea\x85\xcf\x28\x5f\x7e\x8d\xb3\x9c\x19\x01\xfa\x6b\x23\xce\x71\xdf\x4d\x2f\x22\x99\x98\x31\xbc\x3c\xb2\xa0\x4e\x1a\x2a\x41\xea\x6d\x6e\xeb\x66\x08\x60\xea\x9e\x87\xbd\xec\x72\x48\x31\x77\xaa\x13\x51\xde\xa4\x0e\x55\x85\x16\x5e\x50\xb0\x53\xe1\x4c\x61\x60\x65\x2f\x80\x9f\xea\x77\x26\xb9\xe5\x91\x78\xd1\x02\x4d\x3c\x99\x17\x27\xd0\x2d\x9a\x5b\xa4\xed\x0c\x03\xa3\xdb\x63\x85\x8d\xe6\xec\x74\x40\x18\xa4\xc2\x4e\xe4\x7d\x33\xc2\xb0\xd7\x26\xf1\x82\x54\x7b\x8c\x12\x17\x94\xd8\xa9\xfd\x37\x9d\x5c\x85\x7d\x7f\x6a\x45\x25\x5b\xf5\x75\x1f\x1c\x83\xc2\xef\xd4\xe8\x1a\xdf\x7f\xb5\xf3\x5c\x13\x4e\x4b\x69\x7c\x42\xc7\xa7\xaa\x14\x0d\xd5\x11\x62\x65\x5b\x15\x64\xe4\xe0\x7d\x91\xfb\xc0\x0b\x51\xec\x5c\x56\xaf\xcf\x0b\x27\x46\xc1\xa8\x2e\xc3\xfe\x6e\x90\xd1\x19\xe5\xc0\x53\x94\xda\xe9\x05\x86\x38\x51\x00\x29\x89\x81\xbe\x70\xeb\xfe\x6e\xac\xd5\x40\x46\xc9\x8d\x46\x10\x1e\x78\x97\xa3\x33\x15\xfc\x37\x94\x64\xcf\xf2\x3c\xd6\xc0\x0f\xab\x72\xb4\x65\xfd\x33\x54\x78\x23\x88\x8c\x24\xe0\xa8\x6c\xad\xc1\x83\x2b\xb3\xe4\x8c\x8c\xa4\xde\x10\x44\x5f\xaa\xb5\x05\x8d\x15\x6a\xe8\x1a\x9d\x9d\x83\xbb\xc6\xd2\x8a\x3b\x63\xe7\xa9\xee\xc1\xb3\x3c\xaf\x1e\xaf\x09\x97\x8c\xe4\x18\x55\x93\xbc\x31\x46\xe1\x0b\x26\xa6\x84\x67\x6f\x4a\x75\xe5\xe8\xac\x7d\x63\xcb\x3f\x70\xe9\xe7\xe0\x4f\xb8\x25\x52\x31\x2b\xb9\x25\x54\xfb\xc5\xea\xb0\x60\xed\x15\xad\x06\x8d\x0e\x31\xdd\x81\x5d\xf5\x90\xd5\x50\xef\xa3\x64\xae\x26\x48\xe0\x29\xc4\xe7\x24\x33\xec\x60\xde\x21\x02\x2d\x5a\xce\x5b\x47\x8f\xf2\x9a\x70\x52\x08\xeb\xae\xfc\x8a\x70\x11\x73\xdc\x43\xbc\xd6\xd1\xbe\x47\xdf\xfe\x43\x43\xf9\xb2\xed\xce\xd3\x37\x37\xdf\xa5\xbf\xc4\xc6\xd8\x0e\xf0\xba\x84\xbe\x0f\xa3\x2b\x5b\xcf\xce\x5b\xae\x55\x37\x30\x8c\x03\xa3\xea\x65\x4a\xdb\x2d\xfd\xae\xd2\x86\x35\x44\x6a\x91\xba\x0f\xc6\x59\x15\x94\xf4\x1b\x5a\xaa\x49\xdd\x6e\xa2\x77\xd3\x1f\xde\xdd\x8d\xc2\xeb\x92\x56\xb3\x2d\x3c\xe8\x87\x6d\x3c\xd4\xb2\x7e\x0c\x22\xee\x58\x7d\xce\xe9\x87\x36\xd5\x6d\x9c\x16\x15\x49\xb6\x5d\xdb\xc8\x60\x8f\x43\xd4\x2b\x31\x87\x92\x9c\x5a\x3e\x0a\xeb\x1d\x38\xbd\x4e\x84\x92\x9f\x9b\xde\x80\xf6\x8d\xf8\x11\x09\xcc\x1e\x04\xfb\x64\x5f\xaf\x6d\x3d\x94\xd3\x74\x26\xd2\x90\xa0\xb8\xda\x12\x13\x9b\x42\xc2\xc9\x82\x37\x82\x5e\xa3\x80\x41\x79\x29\x7c\xf1\xf1\x46\xd0\xcb\xb2\x29\x5e\x35\xc5\x84\x72\x71\xd6\xbe\xb8\x2c\x98\x7c\x53\xd6\x55\xdd\xa0\x4b\x9c\x39\xb1\xb2\x0e\x3b\xf2\xb4\xc5\xcd\xa2\xe3\x6a\xd5\xd3\x58\xa1\x9a\x5e\x51\x21\xc8\x9c\x26\xbb\xca\x1e\x2c\x1b\xbc\x1f\x19\x69\xe5\xcc\x49\x65\x49\x79\xbd\xfc\x1c\xac\x2b\x6d\x14\xc6\x18\xe8\x8b\xa1\xf4\xc7\x11\xb7\xb4\xd0\x50\x32\xb6\xb5\xdd\xad\x29\xae\x84\xdd\xae\xf4\x2b\x02\xde\x4e\xbd\x2e\x88\x80\x05\xc9\xf4\xd8\xa1\x64\xab\x4a\xf1\x65\x58\xc1\xc9\x30\x2a\xdc\xf2\xb7\x7f\xf7\x57\x2e\xa8\x86\xa2\x0d\x29\x91\x5a\xa5\xef\x72\xbc\xc8\xcc\x18\x6d\x75\x61\x45\x8b\x8e\x71\x42\xd1\x1b\x17\x95\x06\xd2\xcd\xe8\xee\xcc\xe5\xee\xcc\xd0\xde\x8f\x1c\x85\x3c\x4f\x65\xe7\x90\x0d\xfc\x55\x32\x77\x1b\x06\x0a\x2f\x24\x77\x53\xd2\xf6\x8e\xd5\x74\x81\xb2\x2c\x55\x6f\x48\x2e\x2a\x20\x59\x66\xce\xb0\x92\xf6\xd0\xf0\x3c\xdc\x9d\x52\x8e\x4c\xd7\x53\xbc\x89\x3c\x32\x42\xfc\x9a\xc8\x45\xb2\x6f\xa0\xdb\x15\xac\xcc\x47\x9e\x43\x21\x12\x25\x1f\x9d\x7b\x46\x10\x26\x69\x62\xdb\x8e\xc8\x3d\x7b\xa3\xdb\x10\x6b\x4f\xea\xb9\x04\xec\x69\xa4\x17\xe4\xec\x01\xad\x56\x22\x0d\xd5\x8a\x4a\xaa\xf8\x02\x86\x0f\x48\x89\x17\xb9\xbe\xc7\xaa\xfc\x5a\x5f\x19\xd3\x6d\x28\x27\xa7\x55\x41\xf5\x4d\x86\x76\x92\x8c\x89\x29\x5e\xc4\x5f\x82\x58\x0a\x49\x8b\x11\x08\x55\x2a\x9e\xb3\x7b\x9a\x2f\x2d\xd3\x21\x1b\x41\xb4\xa8\x84\x3c\x43\x8e\x8e\x8c\x00\xed\xac\x20\x76\x53\xd9\x6a\xe3\xc1\xc8\xed\xf1\x99\x69\x36\x83\x4f\x2c\xcb\x7d\x4b\xc4\x35\xa7\x33\xf6\xe4\x66\x1c\x41\x84\xa7\x32\xd2\x1e\xb9\xc3\xe3\x5c\x37\x9f\x8d\xc7\x11\xfc\x3f\x47\x09\xe4\xca\xa0\x71\x52\xb0\xe1\x79\x7a\x8d\xd6\x89\x83\x76\x70\x8d\x17\x1a\x17\x4d\x68\xae\xf2\xa2\x67\xd9\xe3\x71\x98\xfc\xaa\xbe\xf3\x10\xbd\xaa\xf4\x46\x7a\xe1\x6d\x5d\x7d\xaf\x08\xa2\x83\x41\x08\xe8\xb1\xe2\xf7\x23\xd0\x21\x73\x30\x9a\x1e\x1d\x3f\xbc\x94\xc7\xb5\xbd\xa9\xdf\x32\x24\x61\xd4\x86\x6d\xb1\x78\x2c\x38\xdc\x17\x0a\x56\x2b\xbc\xe2\xbb\xe9\xfc\x18\xa4\xf1\xad\x8a\x00\x5a\x63\x03\x21\xb1\x32\xa3\x4f\xdb\x23\xbe\xb4\x63\x4c\x76\x7f\xd3\xab\xd8\x95\xdc\x47\x63\x43\xfd\x37\xd8\x31\xae\xe7\x7a\xaf\x97\xe1\x37\x39\xfb\xc1\xb0\xb1\xb1\x20\x83\x69\x55\x2f\xdf\xdc\x7c\x17\x37\x23\xf0\xfb\x3f\x27\x82\xa2\xf8\xc0\xf0\xb1\xed\xda\x5a\x07\xdb\x58\x75\xed\xd2\x6e\x8c\xd8\x50\xa6\xa7\x00\x60\x2b\xbb\x1f\x6c\x26\xf8\xad\x6d\xdb\xee\x66\xe7\x77\xfb\xd3\x89\xab\xde\x4c\xff\xce\x7d\x87\xd3\x3f\xd5\xce\x0f\x05\xd2\x4d\x25\xc1\x26\x11\xed\x6b\x53\x1c\xb1\x73\xbd\x5e\x85\x81\x92\x3c\x76\x1f\x27\x44\x50\x38\xc1\x33\xfc\xe6\xe6\xbb\x91\x4a\x2e\x19\xd5\x9a\xb8\x66\x3c\xbf\x25\xda\x05\x67\xe7\x70\x82\x03\xf4\xa3\x4a\x24\x18\xf7\xc0\x91\xf3\x73\x7c\x63\x02\x0c\x17\xf2\xc9\xa6\x46\x6f\xd1\xbe\x9d\xaa\x3a\xf8\x86\x9b\x50\x0d\xb2\xa3\x3d\xb8\xb2\x82\xba\xc9\x73\xd5\x6e\xf4\x1c\xcd\xd0\xc2\x10\x50\x35\xa8\xba\xad\xf9\x6a\xd4\x92\x0a\xef\x18\xb5\x57\x58\x13\xd6\x77\x40\xd1\x56\x30\xe1\x8e\x14\xe0\x55\x25\xcd\x1d\x5e\x04\x89\xb0\x94\xa4\x58\x90\x07\x0a\xf6\xdb\x1c\xbb\x4d\x12\x35\xcf\x44\x65\xab\xcc\x35\x36\x75\x63\x07\x25\xbf\x45\x0d\x6f\x44\x9b\xf8\x3e\xb1\x05\x4d\xca\xf6\xc0\x55\x2d\x5d\xa0\xda\xa5\xf6\xfc\x4b\x76\x94\x3b\x85\x6b\x52\xcb\x5d\xda\xe9\x74\xb2\x77\x9d\x64\x58\x1f\xf8\x11\x9f\x9e\x4e\x26\xe3\xb6\xe3\x12\xe6\x01\xd6\xe1\x4f\x96\x50\x76\x16\x8f\x89\xfc\xfa\x79\x64\xa7\x33\x74\xde\x37\x41\xae\x42\x5a\xa3\x44\x19\x2a\x8f\xd9\x2b\xb0\x37\x43\x52\xbd\xc2\x66\x67\x44\x6a\xd3\xbf\x32\xe1\x28\x6d\x8d\x6d\x86\xa4\x6c\x94\xc6\x4c\x63\x47\xeb\xf0\x4c\xeb\xfb\x6c\x86\xa4\x4c\x33\x3a\xbe\xda\xcc\x33\x59\x12\xf7\x06\x0d\x6a\xa2\xc2\x01\x7f\xf6\xe5\x97\x7e\xba\x68\x04\x8f\x26\x27\xa2\x02\x9e\x35\xa7\x68\xe4\x10\x75\x1e\x48\xa9\x60\x29\xa3\x40\x31\x2a\x91\x12\xbf\xb2\x80\xe7\x47\xaf\xc2\x3f\x7f\x26\x80\x0d\x85\x76\x61\x5a\x1c\x2d\x12\x7b\x43\x66\xb6\x3c\xa4\x27\x64\xd6\x4b\xf6\xdd\x11\x33\x3d\xe9\xf1\x21\xb3\x63\x22\x60\xe7\xd8\x25\xbd\x7c\xfd\xf5\x60\x10\x0c\xa3\xd8\x6d\x6c\x1c\x19\x43\x91\x00\x90\x8e\x4b\x3f\xea\xb5\x61\xfe\xf4\xc1\xc2\x80\x5a\x4f\x3c\xcd\x01\x35\xe0\x34\x3c\xee\xe5\x22\xe0\x93\x4e\xe2\xe3\xf5\x2f\x76\x4e\x31\x8b\x37\x33\x11\xc9\x08\x22\x8f\x67\xce\xe0\x8b\xcf\xb2\x2f\xa2\x51\x67\x0e\x37\x37\x9a\x23\xb8\xe0\x7d\xdc\x1c\x1e\x1d\xd7\x1b\x0c\xeb\x0d\x45\xf5\xd6\xe1\xe1\x31\x3d\x51\x27\x5f\xed\xdf\x04\x9f\x28\x76\xc1\xa6\xd3\xe7\x6d\x0d\x74\xd0\x8d\xcb\xf8\x02\xe8\xb2\x3c\x52\x00\xb9\x9e\x9e\x61\xb0\x65\x12\x9c\x1a\x51\x75\x80\x09\xb5\x33\x16\xe4\xa2\xe7\xa1\xf3\x76\x4d\x38\x08\xc8\xe1\x01\x73\xf5\xbd\x09\x3c\xf9\x0f\x84\xb3\xaa\x11\x80\xea\x04\xad\x30\xd4\xcb\xc1\x78\xbc\xad\x7c\x63\xb4\x23\x46\xa0\x02\x66\x3a\xa7\x8d\x87\x24\xb1\xa2\xe0\x80\x65\xed\x96\x05\xaa\xcb\x40\x09\x99\x0b\x1d\xe1\x47\xa3\x1e\x48\x8e\x7b\x11\x45\x26\x32\xa9\x9b\x76\x7f\x2f\x60\x83\x18\x66\x36\xcd\xe4\x36\xc2\xc9\xe9\x87\x30\xdc\x50\x5f\x83\xae\xf1\x66\xbf\x61\xdf\x5b\x47\x25\x6e\x95\xcc\xc6\x4b\xf5\x72\x81\x81\x5f\x52\x50\x89\x69\x1b\xbc\xf9\x2d\x17\x88\xb6\xf5\xe4\x54\x0d\x95\x4d\x2a\x6d\x5c\x8b\x14\x54\x85\x87\x3a\xb1\x4e\x9c\xe5\x56\xb7\xbb\x60\xa7\xed\xb8\xde\xbc\x45\x8a\x26\x63\x34\x56\xf8\xf7\x79\x7b\x88\xcb\xee\xe4\xc1\xa6\x0c\x42\x39\x57\x35\x79\x56\x7e\x21\xdb\xd3\xab\x57\xf9\xd9\x87\x48\x1b\x9f\x56\x82\x6a\xaa\xdc\x90\x47\x63\x64\x36\xf6\xb7\x7b\xe7\x5e\xe0\x8f\x0d\xca\x29\xc6\xeb\x92\x4e\x15\x5c\xf4\x46\xac\x51\xc0\xc9\xa2\x36\xe9\x59\xb3\xc1\xb2\xa8\xbb\xe4\x1c\x8a\x5d\x83\xa5\xe3\x29\x1c\x16\x36\x66\x33\x75\x20\x4c\xb7\x1b\x5a\x53\x8c\x31\xda\x61\x2f\xc5\x73\xe2\x49\xd4\x16\x72\x7c\x61\xbf\xba\x67\x7a\x7e\x53\x61\x2f\x88\xec\xf6\x47\x89\x1d\xa1\x97\xfa\x36\x72\x21\xea\x5f\xba\x78\xbc\xa9\xc8\x7e\xa7\x59\x38\x75\x3d\x2e\x48\x41\xf3\xb6\x0e\xdd\xf0\x41\x2e\xdc\xb3\x31\xf8\xbc\xcb\x19\x43\xe3\x6d\x3e\xc4\xa0\x91\x3e\xcb\xb2\x78\x07\x2a\x23\xef\x53\x55\xf1\x03\xc6\xbc\xda\xbc\x49\x87\x1b\x11\x27\x9a\x63\xa0\x78\x06\x15\x87\x18\xf5\xe5\x16\xd1\x92\x4d\xba\x5a\xfc\x11\xd2\xf8\x04\x2f\x26\x34\x25\x56\xdb\x59\xab\xa6\xe2\x26\xca\xa2\xbe\x59\xd8\x14\x28\x4e\x11\xb2\x40\xe1\x7e\x32\x76\xae\xd9\xd6\xc6\xdd\x4a\xc2\x2f\x9f\xea\x2e\x22\x76\x56\xb7\x15\x6c\x36\x48\xe7\xce\x89\xd9\x5c\x6a\x20\x0b\x73\xb7\x6e\xa3\xde\x64\x08\x9a\xa1\x5b\xcf\x61\xec\x3d\x8f\xe6\x38\xce\x08\xcb\x75\x41\x90\x3d\x8d\x43\xf0\xa3\xee\xc6\x18\xd1\x6a\x25\x51\x2c\x8b\x3a\x09\x8f\xda\x75\x0d\x21\xf9\x31\xc4\x5d\xf7\x51\x4e\x33\x89\xed\xb2\x5a\x8d\x4f\xfe\xf0\xaf\x7f\xf3\xc3\xef\xff\xf9\x87\x7f\xfa\xb7\x1f\xfe\xfe\x77\x7f\xfc\xc7\xbf\xfd\xcf\x7f\xff\x8f\x3f\xfc\xfe\xef\x7e\xf8\x97\xdf\xfd\xf1\x77\xff\xb0\xb5\xc1\x1b\xf3\x1f\xb6\x8d\x3e\xa9\x3f\x82\xe9\x4f\x86\x40\x6f\x1d\x06\x7f\x65\x1f\x31\xd1\xbe\x79\xda\x10\x82\x23\xaa\x27\xdd\xdc\x93\x79\x58\xaf\xbb\x02\xb2\xc2\x3c\xda\x50\x66\x6d\x5b\x4a\xaa\xee\xc3\x52\xb2\x05\x5b\x3b\x2d\xa6\x87\x18\x0b\x12\x3a\xfb\xe6\x04\x82\x3e\xcc\x5d\x89\x60\xda\x2c\xff\xd8\x81\x9d\x4f\x20\x18\xda\x98\xae\x1e\x71\x54\xad\xb9\x05\x61\x2a\x55\x8c\x2d\xe0\xf9\xb1\x7b\x4e\xec\x37\x54\xb6\x40\xcc\x3d\x5d\x4b\xf5\xa1\x43\x7b\xf4\xb1\xed\x9d\xc4\x9e\x5b\xc7\x45\xbb\xce\xee\x16\x57\x19\x60\xfb\x8e\x6f\x3f\x87\xfe\xc4\xf4\x3d\x18\xb5\x0d\x8e\xef\xa7\xfd\x16\xe6\x3e\xbb\x6f\x3c\x76\x9e\xcc\x83\x8a\x13\xb7\x56\x8a\x42\x03\xce\xc1\x20\xa9\x0d\xdc\x58\x19\x74\x86\xe7\x4b\xcf\xb2\x54\xd1\xd5\x68\x4e\xa5\xfe\xf4\xa3\x6f\xb9\xa0\x9d\xdc\x35\x5c\x64\x75\x43\xe5\xc7\xda\xaa\x87\x18\x30\xa7\x7b\xd2\xde\xdd\xf4\xfb\xf8\x04\x5e\x97\xf9\x52\x7d\x46\x0a\x11\x56\xbd\x85\x49\xbf\x89\x05\xda\x77\x30\x71\xb1\x2d\x1c\x8b\x19\x11\xbc\x79\xa9\x28\x5b\xc9\x85\x5f\x92\x5a\x15\x4c\xa2\xf5\x93\x35\xea\x5b\x37\xe8\x45\xb3\x92\x0a\x01\x27\x63\x33\xa3\x5a\x7e\xaf\xd8\xda\x63\xc3\xb4\xd2\xac\xb3\x7f\xe6\xc4\x6c\x3a\xa8\x57\xfb\xdd\xd3\xd6\x3f\x1d\xcc\x28\x0f\xa7\x94\x07\x73\xca\xea\xec\xe0\x8d\x0e\x67\x62\x3b\x0c\x7d\x11\xf2\xf1\x96\xb6\x76\xf8\x54\x40\x01\x83\x40\x28\x9b\xe0\xb3\x87\x68\x04\x8a\xb2\xad\xbd\xfd\x1c\x3b\xb8\x10\x89\xfb\xcc\x67\x8c\x35\x8b\x02\x0b\xd8\x9f\x37\xb3\x19\xe5\x31\xe2\xea\x97\x5d\x83\x5f\xd8\x60\xbc\xe5\x60\xfb\xdb\x67\x7b\xbf\x86\xe2\x3e\x85\x7a\x68\xe6\xf0\xd5\xb3\xbb\xdb\x8f\xb9\xd5\x61\x4b\xdf\x70\x3c\xe8\x68\xab\x7b\x36\x77\x44\x11\x17\x44\xb4\x1c\x81\xe0\x0f\xfa\xd9\x7d\xda\xce\xf8\x97\xdb\x5f\xd5\x3b\xf4\xfa\x66\xdf\x45\xcc\xdb\x66\xe2\x18\x00\x71\x40\x55\xde\xd0\xdb\x66\x22\xa6\x9c\x4d\xf4\x87\x68\xb6\xee\x5a\xfa\xdf\xf9\x40\x9f\xb3\xaf\x0f\xca\x6a\xfe\xe0\xf7\x54\x40\xe8\x95\x98\xab\xc5\x26\x7b\x39\xcb\x70\x08\xba\xbd\xfd\x88\x7b\xf7\x18\x3d\x36\x58\xad\x3a\xdf\xca\x20\xf7\xd4\xdb\xb0\x43\xbf\x3f\x83\x43\x0e\xf8\xfe\x4c\x0b\x79\xef\x15\x98\xce\x77\x76\x53\x47\x60\x73\xb1\x20\xf1\xf7\x7a\xe0\xbb\x33\xbb\x21\x98\x02\x89\xff\x79\x9f\x9f\x69\xd7\xb5\xf7\x4e\xab\x61\x52\xb7\xc7\x67\xd0\x5d\x33\xde\x04\x71\xcb\x3e\xea\xd3\x33\xb8\x51\x5e\x0f\xa3\xaf\x46\xe6\x2e\xfd\x65\xd9\xdb\xc7\xcb\x00\xb6\x3d\x36\x2a\x8e\x8e\xfd\x36\x8d\xb7\xcb\xde\xa5\x83\xe3\xbf\x4d\xe3\xc1\x71\xe5\xcb\xfb\x89\xeb\x2d\x0f\x00\x4e\xba\xd4\x6d\x49\xbb\xf5\xc5\x19\x33\xd3\x66\xd6\x63\x68\x1e\x2f\xee\x8e\x24\x5b\xad\xba\x64\xef\xcf\xff\x14\x62\x6e\x04\xe0\x95\x98\x0f\x87\xdb\xb7\x2b\x51\xfb\x2e\x62\xee\xa8\x67\x2f\xc4\x3c\x7d\xa1\xf4\x5e\x7f\x05\x66\x5f\xc1\x80\xe5\xe5\x81\x5b\x9d\x86\x3c\x26\x26\xdb\x96\xd0\xf5\xf0\xcb\x66\xd8\x54\x2d\xf8\x80\x12\x3a\x0c\xe9\x41\x35\xf9\x0d\x96\x86\x98\xa8\xa8\x70\xfb\x65\xbf\xfd\x71\x45\xca\xa5\xce\x04\x61\x7e\xd0\x96\x8a\xe8\x6f\x04\x36\x18\xc1\xc0\x74\x0c\xa2\x87\x02\xb0\x14\x0c\x93\x81\xe6\x9e\x91\x11\x6a\x83\x78\x0f\xe4\xec\x70\x5e\x63\xcf\x8f\xa0\x9c\x76\x34\x98\xcb\x56\xf4\x87\x49\x2d\x9d\x3b\x3c\xa8\xe7\xc7\x25\xf8\x13\x9b\x89\x70\x86\x16\x6c\x72\x4c\xb5\x0f\xae\xc8\x44\xce\x6d\xdb\x11\xd5\x3e\xde\xe8\x3d\x5f\x9a\xc0\xe5\xff\x77\x7f\x69\xa2\xc5\x6e\xdb\x8a\x18\x54\x40\xd7\xcd\x24\x67\x62\x41\xf9\x31\xc5\x3c\xc3\x9f\x99\xf0\x05\x82\x6f\x0b\x78\xb2\xc7\x16\x98\x6c\x69\xf2\xdd\x15\x26\x2b\x63\xff\x0f\x0f\x3b\xdf\xe0\xa1\x57\xf4\xd1\xad\xce\xd4\x98\xb8\xef\x48\x04\x41\xaf\xb1\xe2\x6b\x8f\xc8\x74\xec\x39\x0a\x7e\xed\xc8\x0b\xba\x4f\x67\x6c\x17\x8d\x6c\xd6\x8c\x74\x6a\x74\x9d\x40\xb1\x27\xa3\xb7\x42\xa4\x57\xe4\x1a\x57\xca\x43\x64\xa3\x82\xe3\xf8\x6f\x41\xe0\xc2\x86\x92\xdd\x43\x62\xdf\xe5\xb8\x07\xa8\xd2\x2b\xfb\x0e\xfb\x16\x84\xd5\x0b\x7f\xb2\xaf\x3e\x0c\xa0\x7c\x80\xaa\x82\x61\x5d\x85\xa5\x7d\x07\xa8\x21\xca\xb9\x9d\x6f\x4b\x1d\x8d\xc7\xb0\xad\x91\xc6\x63\x58\x7b\xd0\xed\xe0\x54\xd5\xf7\xdb\xc1\x9f\x7f\xbe\xfd\x2e\xc5\x0c\xab\xfa\x2c\xe5\x7b\x66\x6e\xad\xbd\x8f\x06\xa6\xb1\x59\xe7\x6d\x20\xb6\xb8\xd8\x22\xd2\x93\xa9\xed\xfd\x96\xc5\xa1\x4a\xb9\x2f\x85\xba\x5b\x2b\xf7\x7f\x34\xca\xe7\x61\xa3\x9b\xfb\x55\xb3\xc9\xe6\xed\xd0\xcc\xdd\xeb\x40\xee\xff\xbc\xc7\x54\x14\x99\x08\x89\x72\x1d\x06\x94\x35\x6e\xb5\x95\xf4\x57\x62\xbe\xa9\xab\x4f\x15\xae\x3f\x8d\xc2\x3e\xd4\xc6\xda\x97\xc7\xb4\x24\x1f\x54\xd0\x6e\x22\x75\x22\x1c\xb8\xc4\xdb\x86\xff\x1a\x00\x0d\x1c\x6c\xe9\x6c\x6a\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x4d\x8f\xe4\xb8\x95\xe0\x59\xfa\x15\xaf\x85\xfe\x50\xe4\x46\x2a\xda\x0b\xec\xc2\x9b\x8d\x5c\xa0\x2a\x2b\xfb\xc3\xee\xaa\x4a\x57\x65\xb9\x0f\x85\x42\x99\x11\x62\x44\xd0\xa9\xaf\x12\xa9\xcc\x0c\xc7\xc6\x65\x2f\x5e\x60\x17\x58\x60\x4e\x73\x18\x18\x73\x9a\xeb\x60\xce\xf3\x7b\xdc\x03\xff\x8b\xc1\x23\x1f\x29\x2a\x42\x8a\x8f\xea\xf6\x60\x30\x98\x04\xdc\x15\xa2\xc8\xc7\xc7\xc7\xc7\xf7\x4d\x79\x32\x81\xab\x32\xe5\xb0\xe0\x05\xaf\x99\xe2\x29\x4c\x57\x30\x65\x75\x59\x24\xf0\xec\x25\xbc\x78\x79\x0b\xd7\xcf\xbe\xbb\x4d\xc2\xc9\x04\x5e\xf1\xba\x29\x0a\x51\x2c\x4c\x07\x78\x10\x59\x06\xe5\x3d\xaf\x1f\x6a\xa1\x38\xa8\xa5\x90\x30\x17\x19\xd7\x9d\x7f\xcb\x6b\x29\xca\xe2\x02\xd6\xeb\x84\x7e\x6f\x36\xde\x0b\x78\xc6\x14\xf7\xdf\xe2\xf3\x66\x13\x86\x15\x9b\xdd\xb1\x05\xc7\x37\x37\xe6\xe7\x0b\x96\xeb\x37\x93\x09\xdc\xda\x39\x60\x56\x16\x8a\x89\x42\x42\xce\xd5\xb2\x4c\x25\xa8\x12\x72\x76\xc7\x41\x14\xa9\xb8\x17\x69\xc3\x32\xe0\x45\x5a\x95\xa2\x50\x12\xe6\x75\x99\x83\xe4\xf5\xbd\x98\x71\x39\x46\x34\x6a\xfe\xa1\xe1\x52\x01\x2b\x52\xa8\xb9\xac\xca\x42\x72\x50\xab\x8a\x6b\x48\xd8\x15\x57\x54\x4a\xde\x42\x19\x03\x93\xf0\xc0\xb3\x0c\xff\xe5\xc5\xac\x4c\x79\x2d\x11\x00\xc2\x4b\x39\x3d\xcf\xcb\x9a\x06\x6a\x68\x63\xdd\xc0\x90\x52\x73\x28\x9b\x1a\x64\x53\x55\x65\x8d\x94\x56\x35\x2b\x24\xfe\x46\xcc\x04\xcb\xc4\x1f\x98\x12\x65\x81\xd0\xe6\x65\x9d\x33\x25\x93\x30\x14\xb9\xee\x11\x87\x41\x34\x5d\x29\x2e\xa3\x30\x88\x70\xed\xfc\x51\xe1\x4f\x8d\x86\x28\x16\x93\xdf\xcb\xb2\xc0\x86\x79\xae\xdb\x45\x69\xfe\x3b\x11\x65\xa3\x44\x86\x0f\x05\x57\x93\xa5\x52\x95\xfd\xdd\xd4\xba\x59\xaa\x7a\x56\x16\xf7\xf4\x53\x14\x0b\x19\x85\x61\x10\x2d\x84\x5a\x36\xd3\x64\x56\xe6\x93\x45\x79\x7e\x27\xd4\x04\xff\x67\x69\x11\x85\x01\x2b\x56\xd5\x14\xa2\x45\x59\x2e\x32\x9e\x2c\xca\x8c\x15\x8b\xa4\xac\x17\x93\xaa\x2e\x55\x39\x6d\xe6\x13\xbd\xfe\xc9\x5d\x51\x3e\x14\x13\xdd\x3b\x0a\x83\xb4\xa9\xf5\x22\x4f\x18\xda\x0e\x89\xc2\x80\xe7\x95\x3a\x65\x5e\xea\x1f\x85\xc1\x5c\xf0\x2c\xcd\x99\xbc\x3b\x61\xb4\x37\x26\x0a\x03\xa9\xea\x66\xa6\x4e\x18\x6e\x07\x44\x61\xa0\x44\xce\xa5\x62\x79\x75\xc2\x70\x6f\x4c\x14\x06\x0f\x35\xab\x2a\x5e\xcb\x13\x00\xb4\x43\x76\xb7\xb4\x16\x59\xc6\x26\x79\xf3\x18\x75\xdf\x54\x77\x8b\x09\xaf\xeb\xb2\xd6\x9c\xb6\x67\x22\xc7\x79\xba\xc5\xb2\xdf\x9e\x01\xfa\x07\x22\xb2\x5e\x9f\x83\x98\x03\xff\x00\xc9\x55\x59\xcc\xc5\x22\xb9\x75\x27\x21\x62\x59\x16\x41\x54\x30\x25\x23\xd8\x6c\xba\xb8\x61\xeb\xb9\x28\xf5\xbf\xc9\x02\x39\x1c\x41\xf1\x22\xdd\x6c\x8e\x82\xba\xa8\xab\x99\x85\xba\x83\xa7\x7e\x39\xf8\x66\x92\x73\xc5\x52\xa6\xd8\xf6\xa4\x47\x4f\x89\xf0\xdb\x13\x3f\x70\xbe\x5c\x07\x8b\x8e\x37\x17\x9e\xdd\x13\x00\x60\xf7\xe8\x28\xb2\xb4\xc4\xc6\x5f\x27\x4c\x81\xdd\x3b\x38\x8e\xc2\x30\xbc\x67\x35\xc4\x61\xf0\x1e\x2e\x61\x9e\xab\xe4\x75\x55\x8b\x42\x99\x67\x2d\xc0\x92\xab\x32\xaf\x58\xcd\x4d\x13\x49\x9f\xe4\x89\x2a\x85\x69\xe9\x2c\x33\x79\xc1\x1f\x5e\xf3\xfa\x9e\xd7\xe6\xa5\x91\x66\xc9\x8b\xb2\xba\xca\x4a\xd9\xb6\x26\x57\x65\xb5\x32\x0f\x86\x79\x93\x1f\x6a\x56\x85\xc1\x64\x02\xb4\x9f\x96\x0d\x8d\x8c\xc7\xae\x5a\x24\x25\x4f\x0a\x3d\xae\x15\x32\xc9\x33\xfa\x89\xcd\x24\x3e\x92\x6b\xfc\x17\x1b\xec\x91\x4e\x5e\xeb\x1f\xd8\xe4\x1d\xd3\xe4\xd6\xfe\xc6\x17\xed\xf1\xc3\xde\xa2\x58\xfc\x96\x65\x8d\x5e\xb7\x27\x57\x92\xaf\xf1\xf7\x73\x26\xef\xc2\x51\x18\x4e\xce\x8e\xfa\x83\x6b\xab\x93\xc0\x36\x1d\xfe\x9b\x68\x0d\xfa\x5d\x01\x0c\xf5\xcd\x3d\xaf\xc7\x20\xd4\x17\x12\x1a\xc9\xe7\x4d\xa6\xd5\xd4\xbc\x29\x66\x48\x05\x09\x6a\xc9\x14\x14\x1c\xb5\x54\x09\x65\xa5\x6d\x03\x28\x71\x6c\xc5\xeb\x73\xab\x06\x10\xe0\x94\x49\x21\x13\xf8\xba\xac\x81\x3f\xb2\xbc\xca\xf8\x18\x56\x65\x03\xb9\x58\x2c\x15\x54\x4c\xa2\x8a\xf4\x10\x56\x25\x30\x37\x91\x99\xa7\xaa\xcb\xb4\x99\x71\x89\xe0\x58\xa1\x39\x20\xf9\x96\x15\x69\x86\x38\x3e\x08\xb5\x04\xce\x66\x4b\xd2\xf4\x10\xdb\xd9\x47\xf0\x20\x6a\x9e\x42\x53\x21\x92\x0c\x64\xc5\x67\x62\x2e\x66\x50\x31\xb5\x4c\x20\xfe\x4e\x21\x40\x21\xa1\xaa\xcb\x29\x9b\x66\x2b\x60\x90\x0b\xa9\x8c\x95\x00\x29\x97\x62\x51\xe0\x50\x51\xdc\x97\x77\xa8\xee\x39\x20\xb3\x89\x19\x77\x56\x85\x46\x91\x23\x9c\x76\x05\x86\x07\x40\xb4\x94\x4c\x46\xe1\x64\xe2\xa8\x3b\xcb\x04\x2f\x54\x97\xba\xaa\x84\x59\x99\x65\x7c\xa6\x3c\x03\x25\x5b\xc1\xac\x2c\x0c\x38\x9e\x7a\xe6\x8a\x28\x70\x41\x08\x50\x8a\x62\x91\x19\xc3\xc4\xd0\x4a\x20\x85\x73\x8e\x78\xf8\xf8\x8a\x42\xf1\x7a\xce\x66\x7c\x68\x27\x10\x98\x9b\xac\xdf\x48\x6a\x70\xb2\xd6\x2a\xd1\xc6\x02\x1e\xc0\x2b\x5a\xcf\xac\xcc\xa7\xa2\xd0\x74\xca\x09\x45\x6f\x63\xc7\x64\x4a\xa9\xa6\x2e\x40\x28\xa4\x2b\x22\x38\x63\x59\xc6\x6b\xb4\x98\x98\x45\x36\x09\xf5\x72\x76\x08\xba\x0e\x83\x37\x85\x5b\x1f\x4f\xd7\xeb\xc4\x8e\x30\x26\x20\x49\x82\xf5\xba\x66\xc5\x82\xc3\xa7\x02\x2e\x2e\xc1\xf5\x79\x6e\xb6\x0c\xe5\xd8\x7a\xfd\xa9\xa0\x31\x76\x16\x00\x70\x4b\x4d\x6c\x63\xb8\x5e\x1b\xe1\x6a\xac\x4b\xdb\x2c\x0f\x4f\x81\x0c\x0c\xb1\xb7\x88\x11\x78\x93\xc6\x33\xf5\x08\x64\xa5\xa1\x6a\xc0\x7f\xc7\xc8\x30\x67\xeb\xf5\x37\x25\x22\x06\x9f\x8a\xe4\x95\x31\x41\x6f\x57\x95\x5d\xe0\x08\xe2\xad\x1e\xc6\x30\xf5\xba\x8c\x8d\x80\x1b\xc1\x3a\x0c\xac\xdd\xaa\xdb\x10\x51\x9e\xf4\xac\x1c\x91\xc1\xc9\x47\x61\x80\xca\xaa\xae\xe1\x93\x4b\x28\x44\x86\x10\x02\xda\xaf\x42\x64\x1a\x48\x18\x6c\x42\xdb\x66\xa1\x27\x07\x71\x1a\x8d\x11\x5e\xb8\x71\xe4\x44\x62\x3e\x67\x77\x1e\x79\xc2\xf5\x5a\x1f\xe4\x4f\x15\x47\x44\x93\x0d\x76\x3e\x07\x9f\xca\x9f\x2a\x3e\x44\x68\x84\xd5\xb7\x32\x89\x44\x57\xbc\x97\x4d\x46\xbb\xdb\x0d\x6b\xb7\x38\xdc\xbf\xfe\x5d\xb2\x8e\x81\x3b\x51\xeb\xcd\x08\x62\x4b\x0c\xbf\x59\x53\xcc\xdb\x8e\xa0\xe6\x1f\x70\x21\x04\x21\x89\x0f\xed\x76\x18\x04\xf7\x6e\xef\xa4\xbf\x77\x88\x9a\x46\x65\x14\x06\x3d\xbb\xb6\xbb\x6d\xb8\x6f\xb6\xf5\xde\x6c\x47\x80\x6c\xdd\xea\x66\x7f\x6f\x50\x39\x3e\xc9\xb2\xeb\xc7\x19\xaf\x94\xd6\x53\xd2\x88\x58\x47\x29\xad\xa1\xd0\x65\xa1\xb3\x69\x5f\x48\xd0\xdb\xc8\x10\x8a\x67\x13\x38\x52\x3f\x17\x69\x9a\xf1\x07\x56\x1b\x2f\xf0\x8d\xb4\x7e\x21\x3a\x41\x55\x95\xad\x50\xc4\xa0\xd8\x54\x08\x3c\x77\xbd\xb5\xd7\xc5\xef\x79\xbd\x72\xdb\x86\xe7\x05\x25\x08\xb9\x6d\x1a\xde\xcb\x0a\xb5\x06\xcb\xb2\xd5\xd8\xf5\x93\x30\x63\x05\x4c\xb9\xd6\x35\x3c\xc5\x61\xd3\x15\x14\x48\x76\x55\x62\x3b\x7f\x9c\x65\x4d\xca\x53\xe3\x05\x4e\x39\xa2\x80\x6b\xae\x78\x9a\xec\x50\x23\x6e\x71\x1a\x43\xf4\x5a\x31\xd5\xc8\x68\x0c\xd1\x8d\x28\x16\xd1\xc8\x9d\xfb\x33\x47\x90\xd1\xe0\x78\x87\xa1\x47\x95\x71\x8b\x4d\x92\x24\x52\x9b\x05\x9a\x79\x44\x41\xcd\x17\x97\x90\xb3\xea\xad\x79\xf5\xce\x90\x7f\xbd\x41\xf6\xda\x3e\x30\x3d\xa7\x25\x08\x82\xc8\x63\xa3\xe8\x02\xd6\x9b\x71\x18\xf8\x66\xe4\x26\x0c\x03\xd4\xf5\xef\x11\x15\x04\x63\x40\x3a\xb4\x70\x26\x31\x87\xf7\x63\x28\xef\xf0\xb5\x45\xec\x2d\x7f\x7c\xf7\x15\x7c\x52\xde\x21\xb6\x41\x50\xb1\x42\xcc\xe2\xd6\xc2\x9b\xc7\xd1\xb5\x05\x61\xd7\x0d\x5f\x7c\x26\xbf\x80\xb4\xe4\x12\x8a\x52\x01\x7f\x14\x52\x7d\x05\x92\x73\x7f\xe3\x9d\x4f\xa9\x4d\x7a\x44\x6a\x34\x22\x7e\x4e\x79\xc6\x15\x8f\x2d\x06\xfa\x5d\xbb\x00\x51\xcc\x5a\xf4\x6d\x1f\x38\x9e\x50\x62\xae\x41\x5c\x5e\x42\x87\x64\x1a\x42\x10\xf4\x8a\x52\xb8\xf4\x30\x8f\x7b\xbb\x20\xee\xc1\x66\x9b\xe4\xe6\xd8\x7d\xcf\xa6\x3c\xe3\x69\xcb\x0d\x26\x84\xb2\xe0\xca\xf2\x2e\xf2\xbb\xa3\x9e\x66\xe1\x87\x25\x2f\xdc\xdb\xd2\x63\x57\x02\x66\xb8\x6e\x6c\x4e\x19\x1d\x84\xc6\x74\x06\x13\x97\x61\x26\xb8\x23\x66\x68\xd4\xd4\x62\xa6\xcd\xac\x76\x19\xf0\xb0\x14\xb3\xa5\x3e\x43\x92\x17\x7d\x28\x90\x26\xa7\xd1\xd6\x8e\x29\x6b\xd2\xe3\xbb\xab\xc2\x43\x12\x1b\x06\x1e\xef\x4a\xe1\x1e\xc1\x1c\x0e\xad\xeb\xa3\x65\xd3\x0e\x52\x63\x5a\xa7\xa6\x78\xcd\x67\x5c\xdc\xa3\x68\xe2\x66\x89\xe5\xbc\xb3\xee\x04\x5e\x73\xee\xc0\x78\x50\xf4\x0b\x6b\x88\x12\xc2\xd7\x8f\x88\x28\x72\x64\xca\x15\x13\x99\x44\x3b\xd9\x1e\x27\x04\x62\x8d\x5d\x96\x09\xb5\x4a\xf6\x89\x90\xce\xda\xe3\xfc\x27\x50\xf4\x3f\xe5\xcc\x7f\x1c\x39\xd3\x19\x36\x86\x93\xc4\xce\xf1\x01\x8a\x63\x5d\xcf\x6f\x5e\xdd\x5c\xe1\x3a\x79\x7d\xb2\xef\x89\x66\x9c\x37\x1c\xc3\xb5\xb2\x35\x06\xdc\xfe\x00\xbb\x67\x22\x63\xd3\x8c\x1b\xb7\x61\xf1\xea\xe6\x0a\x06\x9c\x01\x3a\x4e\x5d\xc8\xce\x43\x94\xad\x6c\x18\x43\xa9\x6d\x07\x89\xe7\xa1\x13\x8b\xd1\xec\xcd\x6b\x63\x5a\x8c\x86\x26\xc2\xed\x92\x5e\x47\x89\x3c\xf1\xf6\xdd\x30\x24\xe4\xde\xbe\xb7\x4f\xf9\xbc\xac\x79\x8c\xd8\x3e\xa7\x98\xd2\x6d\x49\xd6\xe7\x68\x8c\xbb\xb6\x35\xcf\x25\x1a\x4e\xbc\x48\xe3\x4e\xb3\x5b\x4f\x92\x24\x23\x1d\xe8\x58\xaf\xe1\xb6\xfc\xbe\x7c\xe0\x75\xcb\x88\x48\x2a\xdc\x5c\x6b\x1a\x7e\x8e\x18\xe1\x4b\x5e\xaf\xd1\x4d\x3a\xc8\xbd\xeb\xb5\x85\xe9\x58\xee\x02\xba\xcb\x72\x21\x9a\x18\x19\xda\x91\xbe\x8f\x4b\xd1\x14\x09\x9e\xe9\x48\x39\xae\xdf\xeb\x41\xd6\xb1\xee\x70\x5d\xf4\x76\x20\x5f\x07\x7b\x74\x28\x91\x24\x09\x0e\x43\xda\x6d\x31\x3f\x0a\xdf\x76\xc1\xdb\xae\xb3\x33\xce\xfb\xf7\xdb\x19\xfa\x46\xcb\x79\x70\xfe\x0a\xee\xea\x0e\x91\x01\xb6\xa8\x4c\xf1\x10\xcf\xa0\x27\x37\x8b\x02\x15\x28\x6a\x3d\x1c\x55\xd9\x2e\xf7\xf8\x95\x1e\x44\x55\x1f\xb6\x58\xc2\x59\x3b\xd5\xa8\x05\x7f\xc0\xff\x45\xf7\xe8\xe7\x75\x80\xdf\xa3\x8f\x54\x75\x5c\xa8\x1d\x4a\xea\x55\x68\x6e\xf2\x9d\xaa\x13\x3d\xe1\xea\x23\x9d\x60\xa2\xb0\x61\xf9\xc3\xe4\x9d\x4c\x60\xdf\xe9\x00\x81\xe2\xd0\xf1\x84\x8e\x11\x27\x66\x00\xf5\xf8\x1a\xf7\x47\xc7\x89\x30\xa7\xc3\x6b\x25\x4d\x18\x89\x44\xe8\x2e\x9b\x59\x6f\x17\x83\x39\x18\xab\xaa\xcf\xd3\x32\x67\xa2\xd8\xd7\x39\x81\x9b\x5a\xe4\xac\x16\xd9\xca\x86\xb7\xfc\x58\x98\x91\xc8\xfb\xd6\x11\xbf\xdf\x65\x0e\x5c\xcb\x2b\xfe\xa1\x65\x46\xed\x76\x7b\x4f\xdd\xc0\x87\x76\xb4\x69\xcc\x31\x8e\xb6\xdb\xc9\x0f\x7b\xb6\xe9\xba\x38\x7a\x9b\xf6\xca\xa8\xde\x7d\x32\x23\x6c\x97\xa1\x8d\x3a\xbc\x05\x34\x85\xde\xb0\x3d\xdb\x5a\x65\xab\xa3\xf6\x69\xef\x42\xfa\x36\xaa\x2f\x12\xb2\x6f\xa7\x64\x85\x5b\x65\x47\x1d\x71\x8e\xbc\xcd\x92\x55\xdf\x6e\x7d\xcb\x33\x0c\xab\x87\x86\xd1\x7a\x15\x69\xbf\x00\xca\x53\xb0\x69\x9c\xe4\xf9\xb3\xd1\x76\x07\xc4\x17\xc5\xe8\xdd\x18\xee\x5b\x8b\x2f\x77\xa6\xea\x7d\x27\x04\xa3\xb3\xd1\x1c\xee\xf8\x4a\x6f\x77\x8a\x36\xed\xb4\x54\x4b\xa4\xb1\x9d\x85\xf2\xb8\x10\xdf\x8d\xc8\xfd\xc0\xae\x59\x06\x19\xee\x17\x41\x61\xe4\x74\xe9\x70\xeb\x15\x2b\xca\x42\xcc\x58\xf6\x2d\x67\x29\xaf\x7f\xcd\x57\xd6\x37\xc1\x89\x64\x49\x41\x60\x45\xae\x9e\x05\x31\x9b\x71\x1b\xfb\xe0\x42\x2d\x79\x4d\x33\xe3\x7b\x24\xc5\xa5\x5b\xeb\x0f\x42\x2d\x75\x1e\x02\x49\x34\xd6\x6b\x7d\xfb\xe5\xbb\xd1\xc1\x8e\x03\xd8\xc5\x77\xa3\x16\x02\x59\xfd\xb4\x7d\x33\xf5\xa8\x75\xb0\xb5\x01\xf7\xff\xe9\x7d\x34\x91\xe6\x93\xed\xca\x17\xfc\xc1\x1b\x6d\xa6\xd7\x59\x07\x0a\x1d\xc1\x94\xcd\xee\x70\x7b\x56\xf6\xcc\x98\x10\x3d\xae\xb5\xe0\x3a\xe3\x91\xc0\x77\x0a\xf7\x91\x82\xfd\xc4\xae\x62\x2a\xd0\x67\xb3\x5b\x40\xb1\x6c\x55\x42\x2a\x58\x66\x02\xde\x19\x53\xbc\x86\x19\x66\xa3\xd0\x09\xe7\x3e\x4c\xc3\xa0\x1d\xec\x62\x7c\x6d\xd4\x67\x62\xf0\xbd\x2a\x8b\x62\x8f\x71\x6a\x3a\x59\xe3\x34\x1e\xb0\x4e\xfd\x23\x87\x16\xc2\x76\xac\x35\xf0\x5a\xab\xbb\x05\x9e\x34\x1b\x72\xed\x16\x59\x04\xbb\x5e\x8d\x1f\x60\x6d\x65\x60\x70\xcf\xea\x3e\xd1\x63\x4d\xbd\x5d\x97\x34\x0c\xd6\xfd\x06\xa5\x1b\x72\xb9\x6b\x59\x12\xd5\x34\x7b\x22\xa1\xac\xe7\x49\x8b\xd8\x6c\x92\xbe\x08\x70\xe4\xfa\xd9\x39\xa2\x7d\x96\x65\x6b\x7a\x3e\xe3\x87\x4c\xcf\x03\xd2\xcb\x84\xdb\x82\xd6\x36\xc7\xc7\x91\xa3\x41\xac\xfd\x4a\x4d\x64\xb2\x53\xdb\x5f\xf6\x87\x3b\x40\x76\x90\x3c\x68\xaa\xc3\x39\x81\x72\x38\xdb\xb1\x17\x98\xf7\xd8\x43\xf3\x71\x3b\x6f\xb0\xb1\xc2\x16\x85\x2c\xd2\x00\xe8\x44\xfd\x74\xf3\x65\x8f\x5e\x7c\xc6\x8f\xd1\x8b\xfb\x35\xdd\xb1\xe6\x0b\xe9\xa0\x01\xbd\x68\x84\x02\x9d\xda\x67\xfc\x44\xbd\x88\x8b\x79\xa5\x91\x39\x52\x31\x62\x57\x67\xc4\xa0\xba\x3e\x49\x35\x56\xd9\xaa\x4f\x37\xfa\xdb\xf6\xd3\xcd\x99\x61\xab\xf3\xba\x38\xc2\xea\x3c\xbc\x21\x9e\xf1\xb9\x67\x87\xf7\x5a\x9d\x9d\x5d\xdb\xb7\x8e\x7e\x63\x86\x96\x78\xdc\x96\x9d\x9a\xde\xd9\x6f\x75\x12\x16\x5a\x1b\xcb\xdb\xd2\x37\x64\xcc\x49\xe9\xd3\x04\x34\x0f\x9e\x13\xc3\xa8\x7b\xa0\xc4\x77\x7c\x25\xe1\xed\x3b\x1b\xfe\x3b\x00\xef\xa8\xf4\x58\x9e\xc2\xd9\x21\x23\x4a\xeb\x86\x8a\x89\xba\x9d\x3c\x0c\x6c\x30\xf0\xae\x35\xad\x34\x7a\x6b\x8a\x91\xdd\xdb\x40\xe0\x4c\x3d\x26\x9a\x26\xf1\xdd\x28\xa1\xa0\xe7\xe8\x2b\xb0\x01\xc1\xc0\x00\x76\x51\x11\xfd\x68\x0c\x19\x17\x04\x43\x21\x8a\x30\xf5\xbb\x8e\xd5\x76\x96\xa7\x18\x5c\xb3\x0b\xf8\x55\x29\x8a\xf8\x2c\x4f\xc7\x6d\xd3\x0d\x8e\x89\xf5\x48\x0c\xad\x8c\x2c\x38\xa2\x0c\x5a\x35\x14\x59\x33\x3b\x79\x6c\xdc\xec\xdb\xdb\xdb\x1b\xf2\x33\x6c\xdb\xe1\xbf\x49\x18\xea\xa4\xbd\xa1\x72\xa1\xd9\x0b\x2e\x21\x62\x55\x95\x89\x99\x2e\x53\xd1\x95\x7f\x5f\xc1\x6c\xc9\x6a\xc9\xd5\x65\xa3\xe6\xe7\xbf\x8c\x5c\xb8\x0d\x67\xa5\xd0\x01\xe5\xe6\x91\xb1\x96\xd4\xa2\xcf\xec\xe1\x30\x1c\x02\x2b\x0b\xa8\x6a\x9e\xf2\xb9\x28\x78\xaa\x2b\x2c\x24\x9d\xb9\xad\x69\x0e\x06\xdf\xba\x05\x3e\xdd\xe0\x9b\x5f\xfa\x61\x6d\x19\x31\x87\x44\xc3\xd7\x66\xbf\x27\xb7\xb6\xe2\x40\xc8\x3b\x6f\xdf\x0d\x43\xd7\xfb\xdf\xf7\x9a\x22\x72\x66\x0e\xb4\x6b\x65\x27\x20\xd7\x3f\xe8\x1a\x25\xb9\x11\x37\x75\xcc\xbd\x87\xe1\x21\x4f\xe6\x8a\xd7\xf1\xf6\x1b\x75\xd5\x6e\x6d\xec\x6d\xf3\x48\x03\xda\x5d\xe5\x51\xe1\x40\x8a\x12\xe9\xd0\x5f\x8e\x84\xc9\x9b\x47\x34\xa7\x5e\x95\x0d\xe2\x30\x0a\x3d\x8b\x82\xb2\x19\x17\x97\x83\x64\x76\x5d\xa7\x58\x37\x52\x2c\x10\x20\x0d\x4b\x9e\x9a\x26\x8a\x75\xe7\x76\x5c\x8c\x46\x1a\x75\xc7\x0a\xdf\x29\xfc\x2f\xb8\x2d\xdf\x60\x05\xe3\x66\x13\x8d\x92\x1b\xa6\x96\x9d\x3e\xd8\x70\xcb\xf3\x0a\xed\x69\xdd\xc3\xb2\xd3\x40\x3d\x98\x0e\x36\x76\xa3\x8d\x84\xd1\x8e\x81\xe3\xec\x3a\x5c\x9e\x37\xa5\xce\xb6\x38\xf5\x60\x3a\x9a\x1d\xc5\x8e\xdf\x98\xa4\x99\x55\xc3\xe6\x75\x5f\xe0\x31\xd0\x79\x84\x36\x2e\xe7\xff\x24\xa1\x91\x93\x51\xe5\x33\x8d\xc9\xce\x69\x8f\xc3\x98\x05\x36\xcf\x66\x67\xfc\x01\xdf\xd7\x63\xf4\x5a\x52\x3e\x67\x4d\xa6\x50\xdb\x19\x06\xc1\x13\xa9\xc3\x92\xe5\x1c\xb6\x65\xc1\x18\x18\x4c\xcb\x54\x3b\x8e\x28\x1b\x8c\xd9\x8f\xee\x63\xa4\xe7\x89\x9c\xc7\x79\x8f\x52\x16\x41\xe9\xf6\x44\x63\x17\x8f\x8c\x5f\xc3\x40\xea\xdc\x37\x20\x3d\x10\xd4\x7f\xfb\xf2\xcb\x04\xbe\xa3\x3c\x19\xf6\xf4\xe3\xa9\xe6\xdc\xf0\x5a\x97\x56\x63\x8f\xaa\x2e\xef\x05\xba\xc4\x4b\xfd\x06\xcb\x06\xb2\x0c\x93\xf1\x1a\x5b\x93\x9e\xc4\x7e\xad\x4d\xe6\x83\x46\x28\x1e\x74\x5c\x45\xf2\x9c\xd5\x72\xc9\x74\x49\x98\xc5\x3f\x37\x4d\x98\xcf\x97\xcd\x6c\xc6\x79\x2a\x8d\x0f\xf6\xab\xd7\x2f\x5f\x50\x85\x76\x6a\xcb\xa9\xad\x13\xa7\xd7\xea\xd0\xc1\x54\xe9\xf0\xb2\x4c\xfa\x1f\x0b\xe4\xeb\xb1\x75\x0d\xdd\xca\xda\x97\x1d\x68\x20\x0a\xa9\x38\x4b\x2d\xcd\x8c\x90\xf4\x25\x44\x9f\x21\xe2\x2a\x49\xc6\xf0\x60\x0a\xe0\xba\x6c\xa0\x6d\x46\xdc\xd5\x31\xbc\xc7\xe3\xe7\x93\xc4\x88\x1f\xcc\x46\x56\xbc\x5e\xeb\x5d\xbc\xc0\xb5\xd8\x0d\x45\x4b\x44\xcc\x2d\xb5\x90\x80\x46\xd1\x62\x97\xb8\x4b\xdb\x56\xcf\x8a\x39\xe0\xab\xa7\x7a\x4a\x1a\x7a\x6d\xc2\xac\x0e\x90\x1d\x87\xe4\x8e\x47\x5f\xd9\x19\xb0\xdb\xa5\xa7\x73\x11\x6d\xb8\x74\xe0\x6c\xa0\x20\x78\x48\x0c\xdb\xc4\xa3\xe4\x35\x57\x71\x44\x82\xf0\xfc\x76\x55\xf1\x68\xec\xab\x3c\xb3\x80\xa5\x65\x32\x1f\xff\xae\x78\xb0\x7c\xd8\xae\x03\xad\x0e\xcf\xe4\xb0\x30\xa8\xa7\x8c\x35\x61\x83\x6d\x5c\xee\xc6\x3d\x3d\x93\x6f\xb8\x8a\xef\x6c\xd6\x70\x13\x06\xfa\x68\x5c\x98\x92\xd5\xc4\xb0\xc3\x77\x68\x3a\x16\x2c\xf3\x94\x84\xc6\x5d\xce\xf6\x60\xed\xb1\x59\x8b\xb8\x06\x7e\x09\x72\x46\x90\xf1\x35\xb9\x8f\x0f\x89\x66\x0a\xc2\x18\x3b\x8e\x5c\x63\x8c\xd4\x1e\xa1\xbc\x69\xf9\xce\xf8\x32\x75\x3c\x6d\xe6\xf0\xf6\x1d\x56\xe1\x8e\x88\xd7\xd7\xa1\xb6\xd5\x1e\xc0\x67\x21\x17\x1d\xb7\x7c\xf6\xa6\xa0\x9d\x45\x08\x63\xf8\xfc\x61\xf4\xd5\x76\xf4\xdc\x58\x29\x52\xfc\x81\xc3\x25\xfc\xf2\x17\xff\xe3\xbf\x1b\x16\xca\x78\x81\x63\x46\xf0\x3f\xcd\x3b\xec\x1a\x20\x1a\x97\x30\x6d\xe6\x6f\x2f\xb0\xf1\x1d\xa9\x39\x92\x95\x58\x52\xa2\xe9\x36\x8f\x23\x2b\x1d\x00\x17\xa5\xb3\xbc\x17\x18\xf8\xc2\x24\x6f\x85\xe6\x0e\x14\x65\x71\x8e\x7c\xe5\x0c\x79\xec\x18\x8d\x11\x38\x65\x70\x09\x2a\x55\x05\xbf\xe0\x0f\xf1\x83\x39\x17\x9a\x46\x5a\x86\xfa\x6b\xb7\x35\x05\xeb\x30\xd0\xbd\xf0\x19\xe5\xcb\xef\x70\x96\x0b\x12\xa0\xbf\x23\x71\x8e\xfb\x4e\xbd\x98\x12\x72\x2e\xf0\xf2\xc8\x92\x3b\x69\xa8\x05\xa9\xb7\xb9\xad\x9b\x21\x41\xe8\x7b\x1e\xf6\xb2\xcb\x31\xc5\xdc\x89\x49\x44\x79\x93\x3a\x54\x35\x5a\x78\x41\xc1\x4e\x85\x33\x85\x81\x95\xbd\x00\x7e\xaa\xdf\x99\xe4\x96\x47\xe2\x65\x0b\x74\xe4\xc9\xbc\x78\x04\xdd\xa2\xb9\x65\xd2\xce\x30\x30\xba\x3d\x56\xd8\x48\x67\xa7\x03\x82\x90\x0a\x3b\x91\xf7\xed\x08\xc3\x41\x9b\xc4\x0b\x52\x1d\x30\x4a\x5c\x50\x62\xaf\xf6\xdf\x76\x72\x35\xf6\xfd\xa9\x15\x9d\x6c\x35\xd7\x7d\x70\x0c\x0a\xbf\x73\xd2\x35\xbe\xff\x6a\xe7\xb9\x61\x35\x2f\x14\xf9\x84\x8e\x4f\x75\x29\x1a\xaa\x23\xc4\xca\xb6\x6a\xc8\xc8\xc1\x87\x22\xf7\x81\x17\xa2\xd8\xbb\xac\x5e\x9f\x17\xce\x48\xc1\xe8\x2e\xc3\xfe\x6e\x90\xf2\x39\xaf\xa1\x4e\x50\x6a\x27\x57\x18\xe2\x44\x01\xa4\x25\x06\xfa\xc2\xad\xfb\xbb\xb5\x56\x82\x8c\x92\x1b\x8d\x20\x3c\xf0\x2e\x47\x47\x15\xfc\xaf\x38\x4b\x9f\x64\x59\x6c\x80\x1f\x57\xe5\x68\xcb\xfa\xe7\xa8\xf0\xc6\x10\x91\x24\xa8\x51\xd9\x5a\x83\x07\x57\x66\xc9\x19\x91\xa4\xde\x12\x44\x5f\xea\xb5\x05\x8d\x15\x6a\xe8\x1a\x5d\x5c\x82\xbb\xc6\xd2\x8a\x3b\xb2\xf3\x74\xf7\xe0\x49\x96\x95\x0f\x37\xac\x56\x82\x65\x18\x55\x53\x75\x43\x46\xe1\x33\x21\x67\xac\x4e\xdf\x14\xfa\xca\xd1\x45\xfb\xc6\x96\x7f\xe0\xd2\x2f\xc1\x9f\x70\x47\xa4\x62\x56\x72\x47\xa8\xf6\x8b\xd5\x61\xc1\xda\x2b\x5a\x09\x8d\x0e\x31\xdd\x81\x5d\xf7\x90\x95\xa8\xf7\x51\x32\xd7\x10\x24\xf0\x14\xe2\x53\x96\x12\x3b\xd0\x3b\x44\xa0\x45\xcb\x79\xeb\xe8\x51\xde\xb0\x9a\xe5\xd2\xba\x2b\xbf\x65\xb5\x8c\x6b\xdc\x43\xbc\xd6\xd1\xbe\x47\xdf\xfe\x43\xc3\xeb\x55\xdb\xbd\x4e\xde\xbc\xfa\x3e\xf9\x0d\x36\xc6\x76\x80\xd7\x25\xf4\x7d\x18\x53\xd9\x7a\x71\xd9\x72\xad\xbe\x81\x41\x0e\x8c\xae\x97\x29\x6c\xb7\xe4\xfb\xd2\x18\xd6\x10\xe9\x45\x9a\x3e\x18\x67\xd5\x50\x92\x6f\x78\xa1\x27\x75\xbb\x89\xde\x4d\x7f\x78\x77\x3f\x0a\x2f\x0b\x5e\xce\x77\xf0\xe0\x1f\x76\xf1\xd0\xcb\xfa\x29\x88\xb8\x63\xf5\x79\xcd\x3f\xb4\xa9\x6e\x72\x5a\x74\x24\xd9\x76\x6d\x23\x83\x3d\x0e\x51\xaf\xc4\x1c\x4a\x72\x1a\xf9\x28\xad\x77\xe0\xf4\x3a\x93\x5a\x7e\x6e\x7b\x03\xc6\x37\xaa\x4f\x48\x60\xf6\x20\xd8\x27\xfb\x7a\x6d\xeb\xa1\x9c\xa6\x33\x91\x86\x04\xc5\xf3\x1d\x31\xb1\x2d\x24\x9c\x2c\x78\x23\xf9\x0d\x0a\x18\x94\x97\xd2\x17\x1f\x6f\x24\xbf\x2e\x9a\xfc\x45\x93\x4f\x79\x2d\x2f\xda\x17\xd7\xb9\x50\x6f\x8a\xaa\xac\x1a\x74\x89\x53\x27\x56\x36\x61\x47\x9e\xb6\xb8\x59\x74\x5c\xad\x7a\x12\x6b\x54\x93\xe7\x5c\x4a\xb6\xe0\xa3\x7d\x65\x0f\x96\x0d\xde\x8f\x49\x5a\x39\x73\x52\x5b\x52\x5e\x2f\x3f\x07\xeb\x4a\x1b\x25\x19\x03\x7d\x31\x94\xfe\x38\xe2\x8e\x16\x1a\x4a\xc6\xb6\xb6\xbb\x35\xc5\xb5\xb0\xdb\x97\x7e\x45\xc0\xbb\xa9\xd7\x25\x93\xb0\x64\xa9\x19\x3b\x94\x6c\xd5\x29\xbe\x14\x2b\x38\x05\x46\x85\x5b\xfe\xf6\xef\xfe\xaa\x25\x37\x50\x8c\x21\x25\x13\xab\xf4\x5d\x8e\x17\x99\x19\xa3\xad\x2e\xac\x68\xd1\x21\x27\x14\xbd\x71\x59\x1a\x20\xdd\x8c\xee\xde\x5c\xee\xde\x0c\xed\xdd\xd8\x51\xc8\xf3\x54\xf6\x0e\xd9\xc2\x5f\x27\x73\x77\x61\xa0\xf0\x42\x72\x37\x05\x6f\xef\x58\xcd\x96\x28\xcb\x12\xfd\x86\x65\xb2\x04\x96\xa6\x74\x86\xb5\xb4\x87\xa6\xce\xc2\xfd\x29\xe5\x88\xba\x9e\xe3\x4d\xe4\x31\x09\xf1\x1b\xa6\x96\xa3\x43\x03\xdd\xae\x60\x65\x3e\xf2\x1c\x0a\x91\x68\xf4\xd1\xb9\x67\x04\x41\x49\x13\xdb\x76\x42\xee\xd9\x1b\xdd\x86\x58\x7b\x52\xcf\x05\x60\x4f\x92\x5e\x90\x89\x7b\xb4\x5a\x99\x22\xaa\xe5\xa5\xd2\xf1\x05\x0c\x1f\xb0\x02\x2f\x72\xfd\x80\x55\xf9\x95\xb9\x32\x66\xda\x50\x4e\xce\xca\x9c\x9b\x9b\x0c\xed\x24\xa9\x90\x33\xbc\x88\xbf\x02\xb9\x92\x8a\xe7\x63\x90\xba\x54\x3c\x13\x77\x3c\x5b\x59\xa6\x43\x36\x82\x68\x59\x4a\x75\x81\x1c\x1d\x91\x00\xed\xac\x20\x76\x53\xd9\x6a\xe3\xc1\xc8\xed\xe9\x99\x69\x31\x87\x4f\x2c\xcb\x7d\xcb\xe4\x4d\xcd\xe7\xe2\xd1\xcd\x38\x86\x08\x4f\x65\x64\x3c\x72\x87\xc7\xa5\x69\xbe\x98\x4c\x22\xf8\x2f\x8e\x12\xc8\x95\x41\xe3\xa4\x60\x53\x67\xc9\x0d\x5a\x27\x0e\xda\xd1\x35\x5e\x68\x5c\x34\x21\x5d\xe5\x45\xcf\xb2\xc7\xe3\xa0\xfc\xaa\xb9\xf3\x10\xbd\x28\xcd\x46\x7a\xe1\x6d\x53\x7d\xaf\x09\x62\x82\x41\x08\xe8\xa1\xac\xef\xc6\x60\x42\xe6\x40\x9a\x1e\x1d\x3f\xbc\x94\x57\x1b\x7b\xd3\xbc\x15\x48\xc2\xa8\x0d\xdb\x62\xf1\x58\x70\xbc\x2f\x14\xac\xd7\x78\xc5\x77\xdb\xf9\x21\xa4\xf1\xad\x8e\x00\x5a\x63\x03\x21\x89\x22\xe5\x8f\xbb\x23\xbe\xb4\x63\x28\xbb\xbf\xed\x55\xec\x4b\xee\xa3\xb1\xa1\xff\x1b\xec\x19\xd7\x73\xbd\xd7\xcb\xf0\x53\xce\x7e\x30\x6c\x4c\x16\x64\x30\x2b\xab\xd5\x9b\x57\xdf\xc7\xcd\x18\xfc\xfe\x4f\x99\xe4\x28\x3e\x30\x7c\x6c\xbb\xb6\xd6\xc1\x2e\x56\x5d\xbb\xb4\x1b\x23\x26\xca\xf4\x14\x00\xec\x64\xf7\x83\xed\x04\xbf\xb5\x6d\xdb\xdd\xec\xfc\x6e\x7f\x3a\x71\xd5\x9b\xe9\xdf\xbb\xef\x70\xfe\xd7\xda\xf9\xa1\x40\x3a\x55\x12\x6c\x13\xd1\xbe\xa6\xe2\x88\xbd\xeb\xf5\x2a\x0c\xb4\xe4\xb1\xfb\x38\x65\x92\xc3\x19\x9e\xe1\x37\xaf\xbe\x1f\xeb\xe4\x12\xa9\xd6\x91\x6b\xc6\xf3\x5b\xa0\x5d\x70\x71\x09\x67\x38\xc0\x3c\xea\x44\x02\xb9\x07\x8e\x9c\x9f\xe3\x1b\x0a\x30\x5c\xa9\x47\x9b\x1a\x7d\x8d\xf6\xed\x4c\xd7\xc1\x37\x35\x85\x6a\x90\x1d\xed\xc1\x55\x25\x54\x4d\x96\xe9\x76\xd2\x73\x3c\x45\x0b\x43\x42\xd9\xa0\xea\xb6\xe6\x2b\xa9\x25\x1d\xde\x21\xb5\x97\x5b\x13\xd6\x77\x40\xd1\x56\xa0\x70\x47\x02\xf0\xa2\x54\x74\x87\x17\x41\x22\x2c\x2d\x29\x96\xec\x9e\x83\xfd\x36\xc7\x7e\x93\x44\xcf\x33\xd5\xd9\x2a\xba\xc6\xa6\x6f\xec\xa0\xe4\xb7\xa8\xe1\x8d\x68\x8a\xef\x33\x5b\xd0\xa4\x6d\x0f\x5c\xd5\xca\x05\xaa\x5d\x6a\xcf\xbf\x64\xc7\x6b\xa7\x70\x29\xb5\xdc\xa5\x9d\x49\x27\x7b\xd7\x49\x86\xf5\x81\x1f\xf1\xe9\xe9\x44\x19\xb7\x3d\x97\x30\x8f\xb0\x0e\x7f\xb6\x84\xb2\xb3\x78\x28\xf2\xeb\xe7\x91\x9d\xce\x30\x79\xdf\x11\x72\x15\xd2\x1a\x25\xca\x50\x79\xcc\x41\x81\xbd\x1d\x92\xea\x15\x36\x7b\x23\x52\xdb\xfe\x15\x85\xa3\x8c\x35\xb6\x1d\x92\xb2\x51\x1a\x9a\xc6\x8e\x36\xe1\x99\xd6\xf7\xd9\x0e\x49\x51\x33\x3a\xbe\xc6\xcc\xa3\x2c\x89\x7b\x83\x06\x35\xd3\xe1\x80\xff\xfa\xe5\x97\x7e\xba\x68\x0c\x0f\x94\x13\xd1\x01\xcf\xaa\xe6\x68\xe4\x30\x7d\x1e\x58\xa1\x61\x69\xa3\x40\x33\x2a\x53\x0a\xbf\xb2\x80\xe7\xc7\xac\xc2\x3f\x7f\x14\xc0\x86\xdc\xb8\x30\x2d\x8e\x16\x89\x83\x21\x33\x5b\x1e\xd2\x13\x32\xeb\x25\xfb\xfe\x88\x99\x99\xf4\xf4\x90\xd9\x29\x11\xb0\x4b\xec\x92\x5c\xbf\xfc\x7a\x30\x08\x86\x51\xec\x36\x36\x8e\x8c\xa1\x49\x00\x48\xc7\x95\x1f\xf5\xda\x32\x7f\xfa\x60\x61\x40\xad\x27\x9e\xe6\x80\x12\x38\x03\xaf\xf6\x72\x11\xf0\x49\x27\xf1\xf1\xf2\xd7\x7b\xa7\x98\xc7\xdb\x99\x88\xd1\x18\x22\x8f\x67\x2e\xe0\x8b\xcf\xd2\x2f\xa2\x71\x67\x0e\x37\x37\x9a\x23\xb8\xe0\x43\xdc\x1c\x9e\x1c\xd7\x1b\x0c\xeb\x0d\x45\xf5\x36\xe1\xf1\x31\x3d\x59\x8d\xbe\x3a\xbc\x09\x3e\x51\xec\x82\xa9\xd3\xe7\x6d\x0d\x74\xd0\x8d\xcb\xf8\x02\xe8\xba\x38\x51\x00\xb9\x9e\x9e\x61\xb0\x63\x12\x9c\x93\xa8\x3a\xc2\x84\xda\x1b\x0b\x72\xd1\xf3\xd0\x79\xbb\x14\x0e\x02\x76\x7c\xc0\x5c\x7f\x6f\x02\x4f\xfe\x3d\xab\x45\xd9\x48\x40\x75\x82\x56\x18\xea\xe5\x60\x32\xd9\x55\xbe\x31\xda\x11\x63\xd0\x01\x33\x93\xd3\xc6\x43\x32\xb2\xa2\xe0\x88\x65\xed\x97\x05\xba\xcb\x40\x09\x99\x0b\x1d\xe1\x47\xa3\xee\x59\x86\x7b\x11\x45\x14\x99\x34\x4d\xfb\xbf\x17\xb0\x45\x0c\x9a\xcd\x30\xb9\x8d\x70\xd6\xfc\x43\x18\x6e\xa9\xaf\x41\xd7\x78\xbb\xdf\xb0\xef\x6d\xa2\x12\xaf\xb5\xcc\xc6\x4b\xf5\x6a\x89\x81\x5f\x96\x73\x85\x69\x1b\xbc\xf9\xad\x96\x88\xb6\xf5\xe4\x74\x0d\x95\x4d\x2a\x6d\x5d\x8b\x94\x5c\x87\x87\x3a\xb1\x4e\x9c\xe5\xb5\x69\x77\xc1\x4e\xdb\x71\xb3\x7d\x8b\x14\x4d\xc6\x68\xa2\xf1\xef\xf3\xf6\x10\x97\xfd\xc9\x83\x6d\x19\x84\x72\xae\x6c\xb2\xb4\xf8\x42\xb5\xa7\xd7\xac\xf2\xb3\x0f\x91\x31\x3e\xad\x04\x35\x54\x79\xc5\x1e\xc8\xc8\x6c\xec\x6f\xf7\xce\xbd\xc0\x1f\x5b\x94\xd3\x8c\xd7\x25\x9d\x2e\xb8\xe8\x8d\x58\xa3\x80\x53\x79\x45\xe9\x59\xda\x60\x95\x57\x5d\x72\x0e\xc5\xae\xc1\xd2\xf1\x1c\x8e\x0b\x1b\x8b\xb9\x3e\x10\xd4\xed\x15\xaf\x38\xc6\x18\xed\xb0\xef\xe4\x53\xe6\x49\xd4\x16\x72\x7c\x65\xbf\xba\x47\x3d\xbf\x29\xb1\x17\x44\x76\xfb\xa3\x91\x1d\x61\x96\xfa\x36\x72\x21\xea\xdf\xb8\x78\x3c\x55\x64\xbf\x33\x2c\x9c\xb8\x1e\x57\x2c\xe7\x59\x5b\x87\x4e\x7c\x90\x49\xf7\x4c\x06\x9f\x77\x39\x63\x68\xbc\xcd\x87\x10\x1a\xc9\x93\x34\x8d\xf7\xa0\x32\xf6\x3e\x55\x15\xdf\x63\xcc\xab\xcd\x9b\x74\xb8\xb1\x8f\xc8\x96\x06\x44\x01\xdb\x8f\x92\x34\x43\x18\x8e\xe0\xf2\x12\x7e\xe1\xf0\x9c\x4c\xf0\x02\x95\xf9\xd8\x0f\xa5\x9c\x35\x9b\xc2\x94\x03\x7e\xb0\xa8\x40\x23\x5e\x1b\x76\x34\x40\xe5\x74\xef\x6d\xab\x16\x64\x70\x3e\x1a\xd7\x73\x52\x82\xde\xd3\x42\x87\x65\xce\x44\x66\xca\x75\xec\x59\x19\x9a\x21\x22\xb2\x05\x9b\x2e\xed\xd1\xaa\xde\x4b\x7b\xb3\xde\x58\xe5\xd5\x5e\xca\xaf\xd7\x3c\xc3\x10\xfd\x1c\xca\x1a\x62\xb4\x54\x76\xd8\x75\xb4\xcd\xd1\x76\x33\x70\x0f\x27\x67\x78\x25\xa4\x29\xb0\xce\xd1\xda\x93\x65\x4d\xf1\x2d\xfd\xb5\xc8\x26\x47\x45\x86\x90\x25\xaa\xd5\xb3\x89\x73\x8a\x77\x8e\xcc\x6b\xc5\xea\xeb\xc7\xaa\x8b\x88\x9d\xd5\x1d\x02\x31\x1f\xa4\xd6\xd6\x0e\x6c\x31\xd9\x47\xee\x6e\xff\xe6\xfe\x8c\x7b\x4b\xe8\x91\x52\xb3\x3a\x40\x6f\x5d\x78\xd2\x79\x33\x10\x46\x3f\x85\xb8\x9b\x3e\xca\x19\x26\xb1\x5d\xd6\xeb\xc9\xd9\x9f\xff\xe1\x7f\xff\xf8\xa7\xbf\xfb\xf1\x6f\xff\xf1\xc7\xff\xf7\xc7\xbf\xfc\xcd\xff\xf9\x97\x7f\xfa\xe7\x3f\xff\xe9\xff\xfe\xf8\xf7\x7f\xfc\xcb\x1f\xff\xff\xce\x06\x6f\xcd\x7f\xdc\x36\xfa\xa4\xfe\x08\x71\x73\x36\x04\x7a\xe7\x30\xf8\x2b\xfb\x88\x89\x0e\xcd\xd3\x06\x6f\x1c\x51\x3d\xbd\xe2\x9e\xe8\x61\xb3\xe9\xaa\xa6\x12\x33\x98\x43\x39\xcd\x5d\xfd\xa4\xbb\x0f\xeb\xa7\x16\x6c\xe5\xec\x07\x33\x84\x6c\x77\xe8\xec\x9b\x13\x08\xe6\x30\x77\x25\x02\xb5\x59\xfe\xb1\x03\x3b\x1f\x9f\x20\xda\x50\x57\x8f\x38\xba\xca\xdf\x82\xa0\x1a\x21\xb2\xc2\xbc\x08\xc2\x81\x13\xfb\x0d\x57\x2d\x10\xba\x21\x6d\xa9\x3e\x28\x91\x4f\x3d\xb6\xbd\x93\x38\x99\x6c\xb9\x68\xdf\xd9\xdd\xe1\x2a\x02\x76\xe8\xf8\xf6\x73\xe8\xcf\x4c\xdf\xa3\x51\xdb\xe2\xf8\x7e\xda\xef\x60\xee\xb3\xfb\xd6\x63\xe7\x89\x1e\x74\x84\xbe\xb5\x0f\x35\x1a\x70\x09\x84\xa4\x71\x2d\x62\x6d\x4a\x13\xcf\x17\x9e\x4d\xaf\xe3\xda\xd1\x82\x2b\xf3\xd1\x4d\xdf\x66\x44\x0f\xa5\x6b\x32\xaa\xf2\x15\x57\x1f\xeb\x25\x1c\x63\x3a\x9e\x1f\x28\x38\xe8\x16\x3e\x4c\xce\xe0\x65\x91\xad\xf4\x07\xbc\x10\x61\xdd\x5b\x52\xe2\x53\x2e\xad\xc9\x42\x51\x45\x1c\x8b\xb9\x28\xbc\xf3\xaa\x29\x5b\xaa\xa5\x5f\x0c\x5c\xe6\x42\xa1\xdd\x99\x36\xfa\x2b\x43\x18\xbf\x10\x05\x97\x12\xce\x26\x34\xa3\x5e\x7e\xaf\xd8\x3a\x60\x3d\xb6\xd2\xac\xb3\x7f\x74\x62\xb6\x43\x03\xcf\x0f\x07\x06\xda\xc8\xc0\x60\x2e\x7f\x38\x99\x3f\x98\xcd\xd7\x67\x07\xef\xd2\x38\xe7\xc6\x61\xe8\x8b\x90\x8f\xf7\x71\x8c\xab\xad\x43\x39\x18\x7e\x43\xd9\x04\x9f\xdd\x47\x63\xd0\x94\x6d\x3d\x9d\xa7\xd8\xc1\x05\xa7\xdc\x07\x56\x63\xac\x16\x95\x78\x75\xe0\x69\x33\x9f\xf3\x3a\x46\x5c\xfd\x82\x77\xf0\x4b\x4a\x28\x4e\x11\xec\x7e\x75\xee\xe0\x77\x68\xdc\x47\x68\x8f\xcd\xd9\xbe\x78\x72\xfb\x9a\xaa\x07\x6d\xdb\xe1\xbf\x49\x5b\x74\x88\xe3\xc1\xc4\xb9\xdd\x33\xdd\xce\x45\x5c\x10\xd1\x62\x0c\xb2\xbe\x37\xcf\xee\xa3\x82\xe4\xd9\xef\x7e\xcf\xf0\xd8\x8b\xb3\x7d\x57\x60\x5f\x37\x53\xc7\x00\x88\x03\xaa\xf2\x86\xbf\x6e\xa6\x72\x56\x8b\xa9\xf9\x04\xd0\xce\x2d\x57\xff\x0b\x2b\xe8\xed\xf7\xf5\x41\x59\x5d\xdf\xfb\x3d\x35\x10\xfe\x5c\x2e\xf4\x62\x47\x07\x39\x8b\x38\x04\x03\x0e\xfd\x88\x7b\x37\x48\x3d\x36\x58\xaf\x3b\x5f\x29\x61\x77\xdc\xdb\xb0\x63\xbf\xfc\x83\x43\x8e\xf8\xf2\x4f\x0b\xf9\xe0\xe5\xa3\xce\x17\x8e\x13\x47\x60\xba\xd2\x31\xf2\xf7\x7a\xe0\x8b\x3f\xfb\x21\x50\x69\xca\xbf\xbf\x0f\xff\xb4\xeb\x3a\x78\x9b\x98\x98\xd4\xed\xf1\x05\x74\xd7\x8c\x77\x70\xdc\xb2\x4f\xfa\xe8\x0f\x6e\x94\xd7\x83\xf4\xd5\x98\xbe\x62\x70\x5d\xf4\xf6\xf1\x72\xaf\x6d\x8f\xad\x5a\xaf\x53\xbf\x0a\xe4\xed\xb2\x77\xdd\xe3\xf4\xaf\x02\x79\x70\x5c\xe1\xf8\x61\xe2\x7a\xcb\x03\x80\xb3\x2e\x75\x5b\xd2\xee\x7c\xeb\x87\x66\xda\xce\x37\x0d\xcd\xe3\x65\x3c\x90\x64\xeb\x75\x97\xec\xfd\x99\xb7\x5c\x2e\x48\x00\x3e\x97\x8b\xe1\x44\xc7\x6e\x0d\x70\xdf\x15\xd8\x3d\x37\x09\x72\xb9\x48\x9e\x69\xbd\xd7\x5f\xfb\xda\x57\xaa\x61\x79\x79\xe0\x3e\x2d\x91\x87\xa2\xe1\x6d\xf1\x62\x0f\xbf\x6c\x07\xac\xf5\x82\x8f\x28\x5e\xc4\x00\x0c\x94\xd3\xdf\x63\x51\x0e\xc5\xa3\xa5\xdb\x2f\xfb\xd5\x95\xe7\xac\x58\xe9\x50\xcd\x39\x66\x66\x6d\x91\x8e\xf9\x3a\x63\x83\x11\x0c\x4c\x84\x21\x7a\x28\x00\x0b\x29\x30\x0d\x4b\x37\xbc\x48\xa8\x0d\xe2\x3d\x90\x2d\xc5\x79\xc9\x9e\x1f\x43\x31\xeb\x68\x30\x97\x27\xea\x0f\x50\x5b\x3a\x77\x78\xd0\xcc\x8f\x4b\xf0\x27\xa6\x89\x70\x86\x16\xec\xe8\x94\x3a\x2b\x5c\x11\xe5\x2c\x6c\xdb\x09\x75\x56\xde\xe8\x03\xdf\xf8\xc0\xe5\xff\x5b\x7f\xe3\xa3\xc5\x6e\xd7\x8a\x18\x54\x40\x37\xcd\x34\x13\x72\xc9\xeb\x53\xca\xa8\x86\x3f\xf0\xe1\x0b\x04\xdf\x16\xf0\x64\x8f\x2d\xed\xd9\xd1\xe4\xfb\x6b\x7b\xd6\x64\xff\x0f\x0f\xbb\xdc\xe2\xa1\x17\xfc\xc1\xad\x8e\xaa\x7b\xdc\x17\x3c\x82\xa0\xd7\x58\xf1\xb5\x47\x44\x1d\x7b\x8e\x82\x5f\xb5\xf3\x8c\x1f\xd2\x19\xbb\xe5\x3a\xdb\xd5\x3a\x9d\xea\x68\x27\x50\xec\xc9\xe8\xad\xcd\xe9\x15\xb9\xe4\x4a\x79\x88\x6c\xd5\xce\x9c\xfe\x15\x0e\x5c\xd8\x50\x99\xc1\x90\xd8\x77\xd5\x05\x03\x54\xe9\x95\x7d\xc7\x7d\x85\xc3\xea\x85\xbf\xda\xf7\x36\x06\x50\x3e\x42\x55\xc1\xb0\xae\xc2\xa2\xca\x23\xd4\x10\xaf\x6b\x3b\xdf\x8e\x3a\x9a\x4c\x60\x57\x23\x4d\x26\xb0\xf1\xa0\xdb\xc1\x89\xbe\x59\x61\x07\x7f\xfe\xf9\xee\xbb\x04\x73\xdb\x18\xff\x8f\xde\x0b\xba\x2f\xf8\x3e\x1a\x98\xc6\xe6\xfb\x77\x81\xd8\xb2\x6e\x8b\x48\x4f\x8e\xbc\xf7\x2b\x22\xc7\x2a\xe5\xbe\xe4\xf5\x7e\xad\xdc\xff\xb9\x2e\x9f\x87\x49\x37\xf7\xab\x66\xca\xa3\xee\xd1\xcc\xdd\x8b\x58\xee\xff\x36\x89\x6a\xb9\x28\x42\xa2\x5d\x87\x01\x65\x8d\x5b\x6d\x25\xfd\x73\xb9\xd8\xd6\xd5\xe7\x1a\xd7\x9f\x47\x61\x1f\x6b\x63\x1d\xca\x20\x5b\x92\x0f\x2a\x68\x37\x91\x3e\x11\x0e\xdc\xc8\xdb\x86\x7f\x1d\x00\xc2\xc1\x0d\xf4\xe6\x6b\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27244, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x42, 0xda, 0x83, 0x5c, 0xfc, 0xcb, 0xc1, 0xb5, 0x12, 0x11, 0x1e, 0xd1, 0x8d, 0xef, 0xb0, 0xc6, 0x1e, 0x6f, 0x9a, 0x26, 0x90, 0xce, 0x9c, 0xfa, 0x97, 0x14, 0xfc, 0x17, 0x2e, 0xcf, 0xd6, 0x17}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27622, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x54, 0x8c, 0x59, 0xed, 0x5e, 0xda, 0x5, 0x70, 0x5f, 0x93, 0xa8, 0x85, 0x61, 0x98, 0x20, 0x26, 0x47, 0xf9, 0x32, 0x99, 0x6c, 0xcf, 0x45, 0xa6, 0x81, 0x99, 0x56, 0x55, 0x62, 0x68, 0xc8, 0x36}}
 	return a, nil
 }
 
-- 
2.43.0


From ec898b90a31a5103ab7c7ba091da5491db578112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:01 +0000
Subject: [PATCH 18/45] fix: the gRPC client calls the service and methods by
 their names in the definition

---
 .../NAME-service/baron/NAME.pb.baron.go.tmpl  |  4 +-
 gengokit/template/template.go                 |  8 +-
 svcdef/svcdef.go                              | 96 ++++++++++++++++++-
 3 files changed, 99 insertions(+), 9 deletions(-)

diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index ff39e25..b13faf9 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -264,8 +264,8 @@ func NewGRPCClient(conn *grpc.ClientConn, options ...grpctransport.ClientOption)
 	{
 		{{ToLower $i.Name}}Endpoint = grpctransport.NewClient(
 			conn,
-			"{{$pkgName}}.{{$te.Service.Name}}",
-			"{{$i.Name}}",
+			"{{or $te.Service.GRPCName (printf "%s.%s" $pkgName $te.Service.Name)}}",
+			"{{or $i.GRPCName $i.Name}}",
 			EncodeGRPC{{$i.Name}}Request,
 			DecodeGRPC{{$i.Name}}Response,
 			{{GoName $i.ResponseType.Name}}{},
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index 669442e..2c726ce 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -1,6 +1,6 @@
 // Code generated by go-bindata. DO NOT EDIT.
 // sources:
-// NAME-service/baron/NAME.pb.baron.go.tmpl (27.622kB)
+// NAME-service/baron/NAME.pb.baron.go.tmpl (27.674kB)
 // NAME-service/cmd/NAME/main.go.tmpl (1.381kB)
 // NAME-service/cmd/NAME-client/main.go.tmpl (2.923kB)
 // NAME-service/server/endpoints.go.tmpl (230B)
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x4d\x8f\xe4\xb8\x95\xe0\x59\xfa\x15\xaf\x85\xfe\x50\xe4\x46\x2a\xda\x0b\xec\xc2\x9b\x8d\x5c\xa0\x2a\x2b\xfb\xc3\xee\xaa\x4a\x57\x65\xb9\x0f\x85\x42\x99\x11\x62\x44\xd0\xa9\xaf\x12\xa9\xcc\x0c\xc7\xc6\x65\x2f\x5e\x60\x17\x58\x60\x4e\x73\x18\x18\x73\x9a\xeb\x60\xce\xf3\x7b\xdc\x03\xff\x8b\xc1\x23\x1f\x29\x2a\x42\x8a\x8f\xea\xf6\x60\x30\x98\x04\xdc\x15\xa2\xc8\xc7\xc7\xc7\xc7\xf7\x4d\x79\x32\x81\xab\x32\xe5\xb0\xe0\x05\xaf\x99\xe2\x29\x4c\x57\x30\x65\x75\x59\x24\xf0\xec\x25\xbc\x78\x79\x0b\xd7\xcf\xbe\xbb\x4d\xc2\xc9\x04\x5e\xf1\xba\x29\x0a\x51\x2c\x4c\x07\x78\x10\x59\x06\xe5\x3d\xaf\x1f\x6a\xa1\x38\xa8\xa5\x90\x30\x17\x19\xd7\x9d\x7f\xcb\x6b\x29\xca\xe2\x02\xd6\xeb\x84\x7e\x6f\x36\xde\x0b\x78\xc6\x14\xf7\xdf\xe2\xf3\x66\x13\x86\x15\x9b\xdd\xb1\x05\xc7\x37\x37\xe6\xe7\x0b\x96\xeb\x37\x93\x09\xdc\xda\x39\x60\x56\x16\x8a\x89\x42\x42\xce\xd5\xb2\x4c\x25\xa8\x12\x72\x76\xc7\x41\x14\xa9\xb8\x17\x69\xc3\x32\xe0\x45\x5a\x95\xa2\x50\x12\xe6\x75\x99\x83\xe4\xf5\xbd\x98\x71\x39\x46\x34\x6a\xfe\xa1\xe1\x52\x01\x2b\x52\xa8\xb9\xac\xca\x42\x72\x50\xab\x8a\x6b\x48\xd8\x15\x57\x54\x4a\xde\x42\x19\x03\x93\xf0\xc0\xb3\x0c\xff\xe5\xc5\xac\x4c\x79\x2d\x11\x00\xc2\x4b\x39\x3d\xcf\xcb\x9a\x06\x6a\x68\x63\xdd\xc0\x90\x52\x73\x28\x9b\x1a\x64\x53\x55\x65\x8d\x94\x56\x35\x2b\x24\xfe\x46\xcc\x04\xcb\xc4\x1f\x98\x12\x65\x81\xd0\xe6\x65\x9d\x33\x25\x93\x30\x14\xb9\xee\x11\x87\x41\x34\x5d\x29\x2e\xa3\x30\x88\x70\xed\xfc\x51\xe1\x4f\x8d\x86\x28\x16\x93\xdf\xcb\xb2\xc0\x86\x79\xae\xdb\x45\x69\xfe\x3b\x11\x65\xa3\x44\x86\x0f\x05\x57\x93\xa5\x52\x95\xfd\xdd\xd4\xba\x59\xaa\x7a\x56\x16\xf7\xf4\x53\x14\x0b\x19\x85\x61\x10\x2d\x84\x5a\x36\xd3\x64\x56\xe6\x93\x45\x79\x7e\x27\xd4\x04\xff\x67\x69\x11\x85\x01\x2b\x56\xd5\x14\xa2\x45\x59\x2e\x32\x9e\x2c\xca\x8c\x15\x8b\xa4\xac\x17\x93\xaa\x2e\x55\x39\x6d\xe6\x13\xbd\xfe\xc9\x5d\x51\x3e\x14\x13\xdd\x3b\x0a\x83\xb4\xa9\xf5\x22\x4f\x18\xda\x0e\x89\xc2\x80\xe7\x95\x3a\x65\x5e\xea\x1f\x85\xc1\x5c\xf0\x2c\xcd\x99\xbc\x3b\x61\xb4\x37\x26\x0a\x03\xa9\xea\x66\xa6\x4e\x18\x6e\x07\x44\x61\xa0\x44\xce\xa5\x62\x79\x75\xc2\x70\x6f\x4c\x14\x06\x0f\x35\xab\x2a\x5e\xcb\x13\x00\xb4\x43\x76\xb7\xb4\x16\x59\xc6\x26\x79\xf3\x18\x75\xdf\x54\x77\x8b\x09\xaf\xeb\xb2\xd6\x9c\xb6\x67\x22\xc7\x79\xba\xc5\xb2\xdf\x9e\x01\xfa\x07\x22\xb2\x5e\x9f\x83\x98\x03\xff\x00\xc9\x55\x59\xcc\xc5\x22\xb9\x75\x27\x21\x62\x59\x16\x41\x54\x30\x25\x23\xd8\x6c\xba\xb8\x61\xeb\xb9\x28\xf5\xbf\xc9\x02\x39\x1c\x41\xf1\x22\xdd\x6c\x8e\x82\xba\xa8\xab\x99\x85\xba\x83\xa7\x7e\x39\xf8\x66\x92\x73\xc5\x52\xa6\xd8\xf6\xa4\x47\x4f\x89\xf0\xdb\x13\x3f\x70\xbe\x5c\x07\x8b\x8e\x37\x17\x9e\xdd\x13\x00\x60\xf7\xe8\x28\xb2\xb4\xc4\xc6\x5f\x27\x4c\x81\xdd\x3b\x38\x8e\xc2\x30\xbc\x67\x35\xc4\x61\xf0\x1e\x2e\x61\x9e\xab\xe4\x75\x55\x8b\x42\x99\x67\x2d\xc0\x92\xab\x32\xaf\x58\xcd\x4d\x13\x49\x9f\xe4\x89\x2a\x85\x69\xe9\x2c\x33\x79\xc1\x1f\x5e\xf3\xfa\x9e\xd7\xe6\xa5\x91\x66\xc9\x8b\xb2\xba\xca\x4a\xd9\xb6\x26\x57\x65\xb5\x32\x0f\x86\x79\x93\x1f\x6a\x56\x85\xc1\x64\x02\xb4\x9f\x96\x0d\x8d\x8c\xc7\xae\x5a\x24\x25\x4f\x0a\x3d\xae\x15\x32\xc9\x33\xfa\x89\xcd\x24\x3e\x92\x6b\xfc\x17\x1b\xec\x91\x4e\x5e\xeb\x1f\xd8\xe4\x1d\xd3\xe4\xd6\xfe\xc6\x17\xed\xf1\xc3\xde\xa2\x58\xfc\x96\x65\x8d\x5e\xb7\x27\x57\x92\xaf\xf1\xf7\x73\x26\xef\xc2\x51\x18\x4e\xce\x8e\xfa\x83\x6b\xab\x93\xc0\x36\x1d\xfe\x9b\x68\x0d\xfa\x5d\x01\x0c\xf5\xcd\x3d\xaf\xc7\x20\xd4\x17\x12\x1a\xc9\xe7\x4d\xa6\xd5\xd4\xbc\x29\x66\x48\x05\x09\x6a\xc9\x14\x14\x1c\xb5\x54\x09\x65\xa5\x6d\x03\x28\x71\x6c\xc5\xeb\x73\xab\x06\x10\xe0\x94\x49\x21\x13\xf8\xba\xac\x81\x3f\xb2\xbc\xca\xf8\x18\x56\x65\x03\xb9\x58\x2c\x15\x54\x4c\xa2\x8a\xf4\x10\x56\x25\x30\x37\x91\x99\xa7\xaa\xcb\xb4\x99\x71\x89\xe0\x58\xa1\x39\x20\xf9\x96\x15\x69\x86\x38\x3e\x08\xb5\x04\xce\x66\x4b\xd2\xf4\x10\xdb\xd9\x47\xf0\x20\x6a\x9e\x42\x53\x21\x92\x0c\x64\xc5\x67\x62\x2e\x66\x50\x31\xb5\x4c\x20\xfe\x4e\x21\x40\x21\xa1\xaa\xcb\x29\x9b\x66\x2b\x60\x90\x0b\xa9\x8c\x95\x00\x29\x97\x62\x51\xe0\x50\x51\xdc\x97\x77\xa8\xee\x39\x20\xb3\x89\x19\x77\x56\x85\x46\x91\x23\x9c\x76\x05\x86\x07\x40\xb4\x94\x4c\x46\xe1\x64\xe2\xa8\x3b\xcb\x04\x2f\x54\x97\xba\xaa\x84\x59\x99\x65\x7c\xa6\x3c\x03\x25\x5b\xc1\xac\x2c\x0c\x38\x9e\x7a\xe6\x8a\x28\x70\x41\x08\x50\x8a\x62\x91\x19\xc3\xc4\xd0\x4a\x20\x85\x73\x8e\x78\xf8\xf8\x8a\x42\xf1\x7a\xce\x66\x7c\x68\x27\x10\x98\x9b\xac\xdf\x48\x6a\x70\xb2\xd6\x2a\xd1\xc6\x02\x1e\xc0\x2b\x5a\xcf\xac\xcc\xa7\xa2\xd0\x74\xca\x09\x45\x6f\x63\xc7\x64\x4a\xa9\xa6\x2e\x40\x28\xa4\x2b\x22\x38\x63\x59\xc6\x6b\xb4\x98\x98\x45\x36\x09\xf5\x72\x76\x08\xba\x0e\x83\x37\x85\x5b\x1f\x4f\xd7\xeb\xc4\x8e\x30\x26\x20\x49\x82\xf5\xba\x66\xc5\x82\xc3\xa7\x02\x2e\x2e\xc1\xf5\x79\x6e\xb6\x0c\xe5\xd8\x7a\xfd\xa9\xa0\x31\x76\x16\x00\x70\x4b\x4d\x6c\x63\xb8\x5e\x1b\xe1\x6a\xac\x4b\xdb\x2c\x0f\x4f\x81\x0c\x0c\xb1\xb7\x88\x11\x78\x93\xc6\x33\xf5\x08\x64\xa5\xa1\x6a\xc0\x7f\xc7\xc8\x30\x67\xeb\xf5\x37\x25\x22\x06\x9f\x8a\xe4\x95\x31\x41\x6f\x57\x95\x5d\xe0\x08\xe2\xad\x1e\xc6\x30\xf5\xba\x8c\x8d\x80\x1b\xc1\x3a\x0c\xac\xdd\xaa\xdb\x10\x51\x9e\xf4\xac\x1c\x91\xc1\xc9\x47\x61\x80\xca\xaa\xae\xe1\x93\x4b\x28\x44\x86\x10\x02\xda\xaf\x42\x64\x1a\x48\x18\x6c\x42\xdb\x66\xa1\x27\x07\x71\x1a\x8d\x11\x5e\xb8\x71\xe4\x44\x62\x3e\x67\x77\x1e\x79\xc2\xf5\x5a\x1f\xe4\x4f\x15\x47\x44\x93\x0d\x76\x3e\x07\x9f\xca\x9f\x2a\x3e\x44\x68\x84\xd5\xb7\x32\x89\x44\x57\xbc\x97\x4d\x46\xbb\xdb\x0d\x6b\xb7\x38\xdc\xbf\xfe\x5d\xb2\x8e\x81\x3b\x51\xeb\xcd\x08\x62\x4b\x0c\xbf\x59\x53\xcc\xdb\x8e\xa0\xe6\x1f\x70\x21\x04\x21\x89\x0f\xed\x76\x18\x04\xf7\x6e\xef\xa4\xbf\x77\x88\x9a\x46\x65\x14\x06\x3d\xbb\xb6\xbb\x6d\xb8\x6f\xb6\xf5\xde\x6c\x47\x80\x6c\xdd\xea\x66\x7f\x6f\x50\x39\x3e\xc9\xb2\xeb\xc7\x19\xaf\x94\xd6\x53\xd2\x88\x58\x47\x29\xad\xa1\xd0\x65\xa1\xb3\x69\x5f\x48\xd0\xdb\xc8\x10\x8a\x67\x13\x38\x52\x3f\x17\x69\x9a\xf1\x07\x56\x1b\x2f\xf0\x8d\xb4\x7e\x21\x3a\x41\x55\x95\xad\x50\xc4\xa0\xd8\x54\x08\x3c\x77\xbd\xb5\xd7\xc5\xef\x79\xbd\x72\xdb\x86\xe7\x05\x25\x08\xb9\x6d\x1a\xde\xcb\x0a\xb5\x06\xcb\xb2\xd5\xd8\xf5\x93\x30\x63\x05\x4c\xb9\xd6\x35\x3c\xc5\x61\xd3\x15\x14\x48\x76\x55\x62\x3b\x7f\x9c\x65\x4d\xca\x53\xe3\x05\x4e\x39\xa2\x80\x6b\xae\x78\x9a\xec\x50\x23\x6e\x71\x1a\x43\xf4\x5a\x31\xd5\xc8\x68\x0c\xd1\x8d\x28\x16\xd1\xc8\x9d\xfb\x33\x47\x90\xd1\xe0\x78\x87\xa1\x47\x95\x71\x8b\x4d\x92\x24\x52\x9b\x05\x9a\x79\x44\x41\xcd\x17\x97\x90\xb3\xea\xad\x79\xf5\xce\x90\x7f\xbd\x41\xf6\xda\x3e\x30\x3d\xa7\x25\x08\x82\xc8\x63\xa3\xe8\x02\xd6\x9b\x71\x18\xf8\x66\xe4\x26\x0c\x03\xd4\xf5\xef\x11\x15\x04\x63\x40\x3a\xb4\x70\x26\x31\x87\xf7\x63\x28\xef\xf0\xb5\x45\xec\x2d\x7f\x7c\xf7\x15\x7c\x52\xde\x21\xb6\x41\x50\xb1\x42\xcc\xe2\xd6\xc2\x9b\xc7\xd1\xb5\x05\x61\xd7\x0d\x5f\x7c\x26\xbf\x80\xb4\xe4\x12\x8a\x52\x01\x7f\x14\x52\x7d\x05\x92\x73\x7f\xe3\x9d\x4f\xa9\x4d\x7a\x44\x6a\x34\x22\x7e\x4e\x79\xc6\x15\x8f\x2d\x06\xfa\x5d\xbb\x00\x51\xcc\x5a\xf4\x6d\x1f\x38\x9e\x50\x62\xae\x41\x5c\x5e\x42\x87\x64\x1a\x42\x10\xf4\x8a\x52\xb8\xf4\x30\x8f\x7b\xbb\x20\xee\xc1\x66\x9b\xe4\xe6\xd8\x7d\xcf\xa6\x3c\xe3\x69\xcb\x0d\x26\x84\xb2\xe0\xca\xf2\x2e\xf2\xbb\xa3\x9e\x66\xe1\x87\x25\x2f\xdc\xdb\xd2\x63\x57\x02\x66\xb8\x6e\x6c\x4e\x19\x1d\x84\xc6\x74\x06\x13\x97\x61\x26\xb8\x23\x66\x68\xd4\xd4\x62\xa6\xcd\xac\x76\x19\xf0\xb0\x14\xb3\xa5\x3e\x43\x92\x17\x7d\x28\x90\x26\xa7\xd1\xd6\x8e\x29\x6b\xd2\xe3\xbb\xab\xc2\x43\x12\x1b\x06\x1e\xef\x4a\xe1\x1e\xc1\x1c\x0e\xad\xeb\xa3\x65\xd3\x0e\x52\x63\x5a\xa7\xa6\x78\xcd\x67\x5c\xdc\xa3\x68\xe2\x66\x89\xe5\xbc\xb3\xee\x04\x5e\x73\xee\xc0\x78\x50\xf4\x0b\x6b\x88\x12\xc2\xd7\x8f\x88\x28\x72\x64\xca\x15\x13\x99\x44\x3b\xd9\x1e\x27\x04\x62\x8d\x5d\x96\x09\xb5\x4a\xf6\x89\x90\xce\xda\xe3\xfc\x27\x50\xf4\x3f\xe5\xcc\x7f\x1c\x39\xd3\x19\x36\x86\x93\xc4\xce\xf1\x01\x8a\x63\x5d\xcf\x6f\x5e\xdd\x5c\xe1\x3a\x79\x7d\xb2\xef\x89\x66\x9c\x37\x1c\xc3\xb5\xb2\x35\x06\xdc\xfe\x00\xbb\x67\x22\x63\xd3\x8c\x1b\xb7\x61\xf1\xea\xe6\x0a\x06\x9c\x01\x3a\x4e\x5d\xc8\xce\x43\x94\xad\x6c\x18\x43\xa9\x6d\x07\x89\xe7\xa1\x13\x8b\xd1\xec\xcd\x6b\x63\x5a\x8c\x86\x26\xc2\xed\x92\x5e\x47\x89\x3c\xf1\xf6\xdd\x30\x24\xe4\xde\xbe\xb7\x4f\xf9\xbc\xac\x79\x8c\xd8\x3e\xa7\x98\xd2\x6d\x49\xd6\xe7\x68\x8c\xbb\xb6\x35\xcf\x25\x1a\x4e\xbc\x48\xe3\x4e\xb3\x5b\x4f\x92\x24\x23\x1d\xe8\x58\xaf\xe1\xb6\xfc\xbe\x7c\xe0\x75\xcb\x88\x48\x2a\xdc\x5c\x6b\x1a\x7e\x8e\x18\xe1\x4b\x5e\xaf\xd1\x4d\x3a\xc8\xbd\xeb\xb5\x85\xe9\x58\xee\x02\xba\xcb\x72\x21\x9a\x18\x19\xda\x91\xbe\x8f\x4b\xd1\x14\x09\x9e\xe9\x48\x39\xae\xdf\xeb\x41\xd6\xb1\xee\x70\x5d\xf4\x76\x20\x5f\x07\x7b\x74\x28\x91\x24\x09\x0e\x43\xda\x6d\x31\x3f\x0a\xdf\x76\xc1\xdb\xae\xb3\x33\xce\xfb\xf7\xdb\x19\xfa\x46\xcb\x79\x70\xfe\x0a\xee\xea\x0e\x91\x01\xb6\xa8\x4c\xf1\x10\xcf\xa0\x27\x37\x8b\x02\x15\x28\x6a\x3d\x1c\x55\xd9\x2e\xf7\xf8\x95\x1e\x44\x55\x1f\xb6\x58\xc2\x59\x3b\xd5\xa8\x05\x7f\xc0\xff\x45\xf7\xe8\xe7\x75\x80\xdf\xa3\x8f\x54\x75\x5c\xa8\x1d\x4a\xea\x55\x68\x6e\xf2\x9d\xaa\x13\x3d\xe1\xea\x23\x9d\x60\xa2\xb0\x61\xf9\xc3\xe4\x9d\x4c\x60\xdf\xe9\x00\x81\xe2\xd0\xf1\x84\x8e\x11\x27\x66\x00\xf5\xf8\x1a\xf7\x47\xc7\x89\x30\xa7\xc3\x6b\x25\x4d\x18\x89\x44\xe8\x2e\x9b\x59\x6f\x17\x83\x39\x18\xab\xaa\xcf\xd3\x32\x67\xa2\xd8\xd7\x39\x81\x9b\x5a\xe4\xac\x16\xd9\xca\x86\xb7\xfc\x58\x98\x91\xc8\xfb\xd6\x11\xbf\xdf\x65\x0e\x5c\xcb\x2b\xfe\xa1\x65\x46\xed\x76\x7b\x4f\xdd\xc0\x87\x76\xb4\x69\xcc\x31\x8e\xb6\xdb\xc9\x0f\x7b\xb6\xe9\xba\x38\x7a\x9b\xf6\xca\xa8\xde\x7d\x32\x23\x6c\x97\xa1\x8d\x3a\xbc\x05\x34\x85\xde\xb0\x3d\xdb\x5a\x65\xab\xa3\xf6\x69\xef\x42\xfa\x36\xaa\x2f\x12\xb2\x6f\xa7\x64\x85\x5b\x65\x47\x1d\x71\x8e\xbc\xcd\x92\x55\xdf\x6e\x7d\xcb\x33\x0c\xab\x87\x86\xd1\x7a\x15\x69\xbf\x00\xca\x53\xb0\x69\x9c\xe4\xf9\xb3\xd1\x76\x07\xc4\x17\xc5\xe8\xdd\x18\xee\x5b\x8b\x2f\x77\xa6\xea\x7d\x27\x04\xa3\xb3\xd1\x1c\xee\xf8\x4a\x6f\x77\x8a\x36\xed\xb4\x54\x4b\xa4\xb1\x9d\x85\xf2\xb8\x10\xdf\x8d\xc8\xfd\xc0\xae\x59\x06\x19\xee\x17\x41\x61\xe4\x74\xe9\x70\xeb\x15\x2b\xca\x42\xcc\x58\xf6\x2d\x67\x29\xaf\x7f\xcd\x57\xd6\x37\xc1\x89\x64\x49\x41\x60\x45\xae\x9e\x05\x31\x9b\x71\x1b\xfb\xe0\x42\x2d\x79\x4d\x33\xe3\x7b\x24\xc5\xa5\x5b\xeb\x0f\x42\x2d\x75\x1e\x02\x49\x34\xd6\x6b\x7d\xfb\xe5\xbb\xd1\xc1\x8e\x03\xd8\xc5\x77\xa3\x16\x02\x59\xfd\xb4\x7d\x33\xf5\xa8\x75\xb0\xb5\x01\xf7\xff\xe9\x7d\x34\x91\xe6\x93\xed\xca\x17\xfc\xc1\x1b\x6d\xa6\xd7\x59\x07\x0a\x1d\xc1\x94\xcd\xee\x70\x7b\x56\xf6\xcc\x98\x10\x3d\xae\xb5\xe0\x3a\xe3\x91\xc0\x77\x0a\xf7\x91\x82\xfd\xc4\xae\x62\x2a\xd0\x67\xb3\x5b\x40\xb1\x6c\x55\x42\x2a\x58\x66\x02\xde\x19\x53\xbc\x86\x19\x66\xa3\xd0\x09\xe7\x3e\x4c\xc3\xa0\x1d\xec\x62\x7c\x6d\xd4\x67\x62\xf0\xbd\x2a\x8b\x62\x8f\x71\x6a\x3a\x59\xe3\x34\x1e\xb0\x4e\xfd\x23\x87\x16\xc2\x76\xac\x35\xf0\x5a\xab\xbb\x05\x9e\x34\x1b\x72\xed\x16\x59\x04\xbb\x5e\x8d\x1f\x60\x6d\x65\x60\x70\xcf\xea\x3e\xd1\x63\x4d\xbd\x5d\x97\x34\x0c\xd6\xfd\x06\xa5\x1b\x72\xb9\x6b\x59\x12\xd5\x34\x7b\x22\xa1\xac\xe7\x49\x8b\xd8\x6c\x92\xbe\x08\x70\xe4\xfa\xd9\x39\xa2\x7d\x96\x65\x6b\x7a\x3e\xe3\x87\x4c\xcf\x03\xd2\xcb\x84\xdb\x82\xd6\x36\xc7\xc7\x91\xa3\x41\xac\xfd\x4a\x4d\x64\xb2\x53\xdb\x5f\xf6\x87\x3b\x40\x76\x90\x3c\x68\xaa\xc3\x39\x81\x72\x38\xdb\xb1\x17\x98\xf7\xd8\x43\xf3\x71\x3b\x6f\xb0\xb1\xc2\x16\x85\x2c\xd2\x00\xe8\x44\xfd\x74\xf3\x65\x8f\x5e\x7c\xc6\x8f\xd1\x8b\xfb\x35\xdd\xb1\xe6\x0b\xe9\xa0\x01\xbd\x68\x84\x02\x9d\xda\x67\xfc\x44\xbd\x88\x8b\x79\xa5\x91\x39\x52\x31\x62\x57\x67\xc4\xa0\xba\x3e\x49\x35\x56\xd9\xaa\x4f\x37\xfa\xdb\xf6\xd3\xcd\x99\x61\xab\xf3\xba\x38\xc2\xea\x3c\xbc\x21\x9e\xf1\xb9\x67\x87\xf7\x5a\x9d\x9d\x5d\xdb\xb7\x8e\x7e\x63\x86\x96\x78\xdc\x96\x9d\x9a\xde\xd9\x6f\x75\x12\x16\x5a\x1b\xcb\xdb\xd2\x37\x64\xcc\x49\xe9\xd3\x04\x34\x0f\x9e\x13\xc3\xa8\x7b\xa0\xc4\x77\x7c\x25\xe1\xed\x3b\x1b\xfe\x3b\x00\xef\xa8\xf4\x58\x9e\xc2\xd9\x21\x23\x4a\xeb\x86\x8a\x89\xba\x9d\x3c\x0c\x6c\x30\xf0\xae\x35\xad\x34\x7a\x6b\x8a\x91\xdd\xdb\x40\xe0\x4c\x3d\x26\x9a\x26\xf1\xdd\x28\xa1\xa0\xe7\xe8\x2b\xb0\x01\xc1\xc0\x00\x76\x51\x11\xfd\x68\x0c\x19\x17\x04\x43\x21\x8a\x30\xf5\xbb\x8e\xd5\x76\x96\xa7\x18\x5c\xb3\x0b\xf8\x55\x29\x8a\xf8\x2c\x4f\xc7\x6d\xd3\x0d\x8e\x89\xf5\x48\x0c\xad\x8c\x2c\x38\xa2\x0c\x5a\x35\x14\x59\x33\x3b\x79\x6c\xdc\xec\xdb\xdb\xdb\x1b\xf2\x33\x6c\xdb\xe1\xbf\x49\x18\xea\xa4\xbd\xa1\x72\xa1\xd9\x0b\x2e\x21\x62\x55\x95\x89\x99\x2e\x53\xd1\x95\x7f\x5f\xc1\x6c\xc9\x6a\xc9\xd5\x65\xa3\xe6\xe7\xbf\x8c\x5c\xb8\x0d\x67\xa5\xd0\x01\xe5\xe6\x91\xb1\x96\xd4\xa2\xcf\xec\xe1\x30\x1c\x02\x2b\x0b\xa8\x6a\x9e\xf2\xb9\x28\x78\xaa\x2b\x2c\x24\x9d\xb9\xad\x69\x0e\x06\xdf\xba\x05\x3e\xdd\xe0\x9b\x5f\xfa\x61\x6d\x19\x31\x87\x44\xc3\xd7\x66\xbf\x27\xb7\xb6\xe2\x40\xc8\x3b\x6f\xdf\x0d\x43\xd7\xfb\xdf\xf7\x9a\x22\x72\x66\x0e\xb4\x6b\x65\x27\x20\xd7\x3f\xe8\x1a\x25\xb9\x11\x37\x75\xcc\xbd\x87\xe1\x21\x4f\xe6\x8a\xd7\xf1\xf6\x1b\x75\xd5\x6e\x6d\xec\x6d\xf3\x48\x03\xda\x5d\xe5\x51\xe1\x40\x8a\x12\xe9\xd0\x5f\x8e\x84\xc9\x9b\x47\x34\xa7\x5e\x95\x0d\xe2\x30\x0a\x3d\x8b\x82\xb2\x19\x17\x97\x83\x64\x76\x5d\xa7\x58\x37\x52\x2c\x10\x20\x0d\x4b\x9e\x9a\x26\x8a\x75\xe7\x76\x5c\x8c\x46\x1a\x75\xc7\x0a\xdf\x29\xfc\x2f\xb8\x2d\xdf\x60\x05\xe3\x66\x13\x8d\x92\x1b\xa6\x96\x9d\x3e\xd8\x70\xcb\xf3\x0a\xed\x69\xdd\xc3\xb2\xd3\x40\x3d\x98\x0e\x36\x76\xa3\x8d\x84\xd1\x8e\x81\xe3\xec\x3a\x5c\x9e\x37\xa5\xce\xb6\x38\xf5\x60\x3a\x9a\x1d\xc5\x8e\xdf\x98\xa4\x99\x55\xc3\xe6\x75\x5f\xe0\x31\xd0\x79\x84\x36\x2e\xe7\xff\x24\xa1\x91\x93\x51\xe5\x33\x8d\xc9\xce\x69\x8f\xc3\x98\x05\x36\xcf\x66\x67\xfc\x01\xdf\xd7\x63\xf4\x5a\x52\x3e\x67\x4d\xa6\x50\xdb\x19\x06\xc1\x13\xa9\xc3\x92\xe5\x1c\xb6\x65\xc1\x18\x18\x4c\xcb\x54\x3b\x8e\x28\x1b\x8c\xd9\x8f\xee\x63\xa4\xe7\x89\x9c\xc7\x79\x8f\x52\x16\x41\xe9\xf6\x44\x63\x17\x8f\x8c\x5f\xc3\x40\xea\xdc\x37\x20\x3d\x10\xd4\x7f\xfb\xf2\xcb\x04\xbe\xa3\x3c\x19\xf6\xf4\xe3\xa9\xe6\xdc\xf0\x5a\x97\x56\x63\x8f\xaa\x2e\xef\x05\xba\xc4\x4b\xfd\x06\xcb\x06\xb2\x0c\x93\xf1\x1a\x5b\x93\x9e\xc4\x7e\xad\x4d\xe6\x83\x46\x28\x1e\x74\x5c\x45\xf2\x9c\xd5\x72\xc9\x74\x49\x98\xc5\x3f\x37\x4d\x98\xcf\x97\xcd\x6c\xc6\x79\x2a\x8d\x0f\xf6\xab\xd7\x2f\x5f\x50\x85\x76\x6a\xcb\xa9\xad\x13\xa7\xd7\xea\xd0\xc1\x54\xe9\xf0\xb2\x4c\xfa\x1f\x0b\xe4\xeb\xb1\x75\x0d\xdd\xca\xda\x97\x1d\x68\x20\x0a\xa9\x38\x4b\x2d\xcd\x8c\x90\xf4\x25\x44\x9f\x21\xe2\x2a\x49\xc6\xf0\x60\x0a\xe0\xba\x6c\xa0\x6d\x46\xdc\xd5\x31\xbc\xc7\xe3\xe7\x93\xc4\x88\x1f\xcc\x46\x56\xbc\x5e\xeb\x5d\xbc\xc0\xb5\xd8\x0d\x45\x4b\x44\xcc\x2d\xb5\x90\x80\x46\xd1\x62\x97\xb8\x4b\xdb\x56\xcf\x8a\x39\xe0\xab\xa7\x7a\x4a\x1a\x7a\x6d\xc2\xac\x0e\x90\x1d\x87\xe4\x8e\x47\x5f\xd9\x19\xb0\xdb\xa5\xa7\x73\x11\x6d\xb8\x74\xe0\x6c\xa0\x20\x78\x48\x0c\xdb\xc4\xa3\xe4\x35\x57\x71\x44\x82\xf0\xfc\x76\x55\xf1\x68\xec\xab\x3c\xb3\x80\xa5\x65\x32\x1f\xff\xae\x78\xb0\x7c\xd8\xae\x03\xad\x0e\xcf\xe4\xb0\x30\xa8\xa7\x8c\x35\x61\x83\x6d\x5c\xee\xc6\x3d\x3d\x93\x6f\xb8\x8a\xef\x6c\xd6\x70\x13\x06\xfa\x68\x5c\x98\x92\xd5\xc4\xb0\xc3\x77\x68\x3a\x16\x2c\xf3\x94\x84\xc6\x5d\xce\xf6\x60\xed\xb1\x59\x8b\xb8\x06\x7e\x09\x72\x46\x90\xf1\x35\xb9\x8f\x0f\x89\x66\x0a\xc2\x18\x3b\x8e\x5c\x63\x8c\xd4\x1e\xa1\xbc\x69\xf9\xce\xf8\x32\x75\x3c\x6d\xe6\xf0\xf6\x1d\x56\xe1\x8e\x88\xd7\xd7\xa1\xb6\xd5\x1e\xc0\x67\x21\x17\x1d\xb7\x7c\xf6\xa6\xa0\x9d\x45\x08\x63\xf8\xfc\x61\xf4\xd5\x76\xf4\xdc\x58\x29\x52\xfc\x81\xc3\x25\xfc\xf2\x17\xff\xe3\xbf\x1b\x16\xca\x78\x81\x63\x46\xf0\x3f\xcd\x3b\xec\x1a\x20\x1a\x97\x30\x6d\xe6\x6f\x2f\xb0\xf1\x1d\xa9\x39\x92\x95\x58\x52\xa2\xe9\x36\x8f\x23\x2b\x1d\x00\x17\xa5\xb3\xbc\x17\x18\xf8\xc2\x24\x6f\x85\xe6\x0e\x14\x65\x71\x8e\x7c\xe5\x0c\x79\xec\x18\x8d\x11\x38\x65\x70\x09\x2a\x55\x05\xbf\xe0\x0f\xf1\x83\x39\x17\x9a\x46\x5a\x86\xfa\x6b\xb7\x35\x05\xeb\x30\xd0\xbd\xf0\x19\xe5\xcb\xef\x70\x96\x0b\x12\xa0\xbf\x23\x71\x8e\xfb\x4e\xbd\x98\x12\x72\x2e\xf0\xf2\xc8\x92\x3b\x69\xa8\x05\xa9\xb7\xb9\xad\x9b\x21\x41\xe8\x7b\x1e\xf6\xb2\xcb\x31\xc5\xdc\x89\x49\x44\x79\x93\x3a\x54\x35\x5a\x78\x41\xc1\x4e\x85\x33\x85\x81\x95\xbd\x00\x7e\xaa\xdf\x99\xe4\x96\x47\xe2\x65\x0b\x74\xe4\xc9\xbc\x78\x04\xdd\xa2\xb9\x65\xd2\xce\x30\x30\xba\x3d\x56\xd8\x48\x67\xa7\x03\x82\x90\x0a\x3b\x91\xf7\xed\x08\xc3\x41\x9b\xc4\x0b\x52\x1d\x30\x4a\x5c\x50\x62\xaf\xf6\xdf\x76\x72\x35\xf6\xfd\xa9\x15\x9d\x6c\x35\xd7\x7d\x70\x0c\x0a\xbf\x73\xd2\x35\xbe\xff\x6a\xe7\xb9\x61\x35\x2f\x14\xf9\x84\x8e\x4f\x75\x29\x1a\xaa\x23\xc4\xca\xb6\x6a\xc8\xc8\xc1\x87\x22\xf7\x81\x17\xa2\xd8\xbb\xac\x5e\x9f\x17\xce\x48\xc1\xe8\x2e\xc3\xfe\x6e\x90\xf2\x39\xaf\xa1\x4e\x50\x6a\x27\x57\x18\xe2\x44\x01\xa4\x25\x06\xfa\xc2\xad\xfb\xbb\xb5\x56\x82\x8c\x92\x1b\x8d\x20\x3c\xf0\x2e\x47\x47\x15\xfc\xaf\x38\x4b\x9f\x64\x59\x6c\x80\x1f\x57\xe5\x68\xcb\xfa\xe7\xa8\xf0\xc6\x10\x91\x24\xa8\x51\xd9\x5a\x83\x07\x57\x66\xc9\x19\x91\xa4\xde\x12\x44\x5f\xea\xb5\x05\x8d\x15\x6a\xe8\x1a\x5d\x5c\x82\xbb\xc6\xd2\x8a\x3b\xb2\xf3\x74\xf7\xe0\x49\x96\x95\x0f\x37\xac\x56\x82\x65\x18\x55\x53\x75\x43\x46\xe1\x33\x21\x67\xac\x4e\xdf\x14\xfa\xca\xd1\x45\xfb\xc6\x96\x7f\xe0\xd2\x2f\xc1\x9f\x70\x47\xa4\x62\x56\x72\x47\xa8\xf6\x8b\xd5\x61\xc1\xda\x2b\x5a\x09\x8d\x0e\x31\xdd\x81\x5d\xf7\x90\x95\xa8\xf7\x51\x32\xd7\x10\x24\xf0\x14\xe2\x53\x96\x12\x3b\xd0\x3b\x44\xa0\x45\xcb\x79\xeb\xe8\x51\xde\xb0\x9a\xe5\xd2\xba\x2b\xbf\x65\xb5\x8c\x6b\xdc\x43\xbc\xd6\xd1\xbe\x47\xdf\xfe\x43\xc3\xeb\x55\xdb\xbd\x4e\xde\xbc\xfa\x3e\xf9\x0d\x36\xc6\x76\x80\xd7\x25\xf4\x7d\x18\x53\xd9\x7a\x71\xd9\x72\xad\xbe\x81\x41\x0e\x8c\xae\x97\x29\x6c\xb7\xe4\xfb\xd2\x18\xd6\x10\xe9\x45\x9a\x3e\x18\x67\xd5\x50\x92\x6f\x78\xa1\x27\x75\xbb\x89\xde\x4d\x7f\x78\x77\x3f\x0a\x2f\x0b\x5e\xce\x77\xf0\xe0\x1f\x76\xf1\xd0\xcb\xfa\x29\x88\xb8\x63\xf5\x79\xcd\x3f\xb4\xa9\x6e\x72\x5a\x74\x24\xd9\x76\x6d\x23\x83\x3d\x0e\x51\xaf\xc4\x1c\x4a\x72\x1a\xf9\x28\xad\x77\xe0\xf4\x3a\x93\x5a\x7e\x6e\x7b\x03\xc6\x37\xaa\x4f\x48\x60\xf6\x20\xd8\x27\xfb\x7a\x6d\xeb\xa1\x9c\xa6\x33\x91\x86\x04\xc5\xf3\x1d\x31\xb1\x2d\x24\x9c\x2c\x78\x23\xf9\x0d\x0a\x18\x94\x97\xd2\x17\x1f\x6f\x24\xbf\x2e\x9a\xfc\x45\x93\x4f\x79\x2d\x2f\xda\x17\xd7\xb9\x50\x6f\x8a\xaa\xac\x1a\x74\x89\x53\x27\x56\x36\x61\x47\x9e\xb6\xb8\x59\x74\x5c\xad\x7a\x12\x6b\x54\x93\xe7\x5c\x4a\xb6\xe0\xa3\x7d\x65\x0f\x96\x0d\xde\x8f\x49\x5a\x39\x73\x52\x5b\x52\x5e\x2f\x3f\x07\xeb\x4a\x1b\x25\x19\x03\x7d\x31\x94\xfe\x38\xe2\x8e\x16\x1a\x4a\xc6\xb6\xb6\xbb\x35\xc5\xb5\xb0\xdb\x97\x7e\x45\xc0\xbb\xa9\xd7\x25\x93\xb0\x64\xa9\x19\x3b\x94\x6c\xd5\x29\xbe\x14\x2b\x38\x05\x46\x85\x5b\xfe\xf6\xef\xfe\xaa\x25\x37\x50\x8c\x21\x25\x13\xab\xf4\x5d\x8e\x17\x99\x19\xa3\xad\x2e\xac\x68\xd1\x21\x27\x14\xbd\x71\x59\x1a\x20\xdd\x8c\xee\xde\x5c\xee\xde\x0c\xed\xdd\xd8\x51\xc8\xf3\x54\xf6\x0e\xd9\xc2\x5f\x27\x73\x77\x61\xa0\xf0\x42\x72\x37\x05\x6f\xef\x58\xcd\x96\x28\xcb\x12\xfd\x86\x65\xb2\x04\x96\xa6\x74\x86\xb5\xb4\x87\xa6\xce\xc2\xfd\x29\xe5\x88\xba\x9e\xe3\x4d\xe4\x31\x09\xf1\x1b\xa6\x96\xa3\x43\x03\xdd\xae\x60\x65\x3e\xf2\x1c\x0a\x91\x68\xf4\xd1\xb9\x67\x04\x41\x49\x13\xdb\x76\x42\xee\xd9\x1b\xdd\x86\x58\x7b\x52\xcf\x05\x60\x4f\x92\x5e\x90\x89\x7b\xb4\x5a\x99\x22\xaa\xe5\xa5\xd2\xf1\x05\x0c\x1f\xb0\x02\x2f\x72\xfd\x80\x55\xf9\x95\xb9\x32\x66\xda\x50\x4e\xce\xca\x9c\x9b\x9b\x0c\xed\x24\xa9\x90\x33\xbc\x88\xbf\x02\xb9\x92\x8a\xe7\x63\x90\xba\x54\x3c\x13\x77\x3c\x5b\x59\xa6\x43\x36\x82\x68\x59\x4a\x75\x81\x1c\x1d\x91\x00\xed\xac\x20\x76\x53\xd9\x6a\xe3\xc1\xc8\xed\xe9\x99\x69\x31\x87\x4f\x2c\xcb\x7d\xcb\xe4\x4d\xcd\xe7\xe2\xd1\xcd\x38\x86\x08\x4f\x65\x64\x3c\x72\x87\xc7\xa5\x69\xbe\x98\x4c\x22\xf8\x2f\x8e\x12\xc8\x95\x41\xe3\xa4\x60\x53\x67\xc9\x0d\x5a\x27\x0e\xda\xd1\x35\x5e\x68\x5c\x34\x21\x5d\xe5\x45\xcf\xb2\xc7\xe3\xa0\xfc\xaa\xb9\xf3\x10\xbd\x28\xcd\x46\x7a\xe1\x6d\x53\x7d\xaf\x09\x62\x82\x41\x08\xe8\xa1\xac\xef\xc6\x60\x42\xe6\x40\x9a\x1e\x1d\x3f\xbc\x94\x57\x1b\x7b\xd3\xbc\x15\x48\xc2\xa8\x0d\xdb\x62\xf1\x58\x70\xbc\x2f\x14\xac\xd7\x78\xc5\x77\xdb\xf9\x21\xa4\xf1\xad\x8e\x00\x5a\x63\x03\x21\x89\x22\xe5\x8f\xbb\x23\xbe\xb4\x63\x28\xbb\xbf\xed\x55\xec\x4b\xee\xa3\xb1\xa1\xff\x1b\xec\x19\xd7\x73\xbd\xd7\xcb\xf0\x53\xce\x7e\x30\x6c\x4c\x16\x64\x30\x2b\xab\xd5\x9b\x57\xdf\xc7\xcd\x18\xfc\xfe\x4f\x99\xe4\x28\x3e\x30\x7c\x6c\xbb\xb6\xd6\xc1\x2e\x56\x5d\xbb\xb4\x1b\x23\x26\xca\xf4\x14\x00\xec\x64\xf7\x83\xed\x04\xbf\xb5\x6d\xdb\xdd\xec\xfc\x6e\x7f\x3a\x71\xd5\x9b\xe9\xdf\xbb\xef\x70\xfe\xd7\xda\xf9\xa1\x40\x3a\x55\x12\x6c\x13\xd1\xbe\xa6\xe2\x88\xbd\xeb\xf5\x2a\x0c\xb4\xe4\xb1\xfb\x38\x65\x92\xc3\x19\x9e\xe1\x37\xaf\xbe\x1f\xeb\xe4\x12\xa9\xd6\x91\x6b\xc6\xf3\x5b\xa0\x5d\x70\x71\x09\x67\x38\xc0\x3c\xea\x44\x02\xb9\x07\x8e\x9c\x9f\xe3\x1b\x0a\x30\x5c\xa9\x47\x9b\x1a\x7d\x8d\xf6\xed\x4c\xd7\xc1\x37\x35\x85\x6a\x90\x1d\xed\xc1\x55\x25\x54\x4d\x96\xe9\x76\xd2\x73\x3c\x45\x0b\x43\x42\xd9\xa0\xea\xb6\xe6\x2b\xa9\x25\x1d\xde\x21\xb5\x97\x5b\x13\xd6\x77\x40\xd1\x56\xa0\x70\x47\x02\xf0\xa2\x54\x74\x87\x17\x41\x22\x2c\x2d\x29\x96\xec\x9e\x83\xfd\x36\xc7\x7e\x93\x44\xcf\x33\xd5\xd9\x2a\xba\xc6\xa6\x6f\xec\xa0\xe4\xb7\xa8\xe1\x8d\x68\x8a\xef\x33\x5b\xd0\xa4\x6d\x0f\x5c\xd5\xca\x05\xaa\x5d\x6a\xcf\xbf\x64\xc7\x6b\xa7\x70\x29\xb5\xdc\xa5\x9d\x49\x27\x7b\xd7\x49\x86\xf5\x81\x1f\xf1\xe9\xe9\x44\x19\xb7\x3d\x97\x30\x8f\xb0\x0e\x7f\xb6\x84\xb2\xb3\x78\x28\xf2\xeb\xe7\x91\x9d\xce\x30\x79\xdf\x11\x72\x15\xd2\x1a\x25\xca\x50\x79\xcc\x41\x81\xbd\x1d\x92\xea\x15\x36\x7b\x23\x52\xdb\xfe\x15\x85\xa3\x8c\x35\xb6\x1d\x92\xb2\x51\x1a\x9a\xc6\x8e\x36\xe1\x99\xd6\xf7\xd9\x0e\x49\x51\x33\x3a\xbe\xc6\xcc\xa3\x2c\x89\x7b\x83\x06\x35\xd3\xe1\x80\xff\xfa\xe5\x97\x7e\xba\x68\x0c\x0f\x94\x13\xd1\x01\xcf\xaa\xe6\x68\xe4\x30\x7d\x1e\x58\xa1\x61\x69\xa3\x40\x33\x2a\x53\x0a\xbf\xb2\x80\xe7\xc7\xac\xc2\x3f\x7f\x14\xc0\x86\xdc\xb8\x30\x2d\x8e\x16\x89\x83\x21\x33\x5b\x1e\xd2\x13\x32\xeb\x25\xfb\xfe\x88\x99\x99\xf4\xf4\x90\xd9\x29\x11\xb0\x4b\xec\x92\x5c\xbf\xfc\x7a\x30\x08\x86\x51\xec\x36\x36\x8e\x8c\xa1\x49\x00\x48\xc7\x95\x1f\xf5\xda\x32\x7f\xfa\x60\x61\x40\xad\x27\x9e\xe6\x80\x12\x38\x03\xaf\xf6\x72\x11\xf0\x49\x27\xf1\xf1\xf2\xd7\x7b\xa7\x98\xc7\xdb\x99\x88\xd1\x18\x22\x8f\x67\x2e\xe0\x8b\xcf\xd2\x2f\xa2\x71\x67\x0e\x37\x37\x9a\x23\xb8\xe0\x43\xdc\x1c\x9e\x1c\xd7\x1b\x0c\xeb\x0d\x45\xf5\x36\xe1\xf1\x31\x3d\x59\x8d\xbe\x3a\xbc\x09\x3e\x51\xec\x82\xa9\xd3\xe7\x6d\x0d\x74\xd0\x8d\xcb\xf8\x02\xe8\xba\x38\x51\x00\xb9\x9e\x9e\x61\xb0\x63\x12\x9c\x93\xa8\x3a\xc2\x84\xda\x1b\x0b\x72\xd1\xf3\xd0\x79\xbb\x14\x0e\x02\x76\x7c\xc0\x5c\x7f\x6f\x02\x4f\xfe\x3d\xab\x45\xd9\x48\x40\x75\x82\x56\x18\xea\xe5\x60\x32\xd9\x55\xbe\x31\xda\x11\x63\xd0\x01\x33\x93\xd3\xc6\x43\x32\xb2\xa2\xe0\x88\x65\xed\x97\x05\xba\xcb\x40\x09\x99\x0b\x1d\xe1\x47\xa3\xee\x59\x86\x7b\x11\x45\x14\x99\x34\x4d\xfb\xbf\x17\xb0\x45\x0c\x9a\xcd\x30\xb9\x8d\x70\xd6\xfc\x43\x18\x6e\xa9\xaf\x41\xd7\x78\xbb\xdf\xb0\xef\x6d\xa2\x12\xaf\xb5\xcc\xc6\x4b\xf5\x6a\x89\x81\x5f\x96\x73\x85\x69\x1b\xbc\xf9\xad\x96\x88\xb6\xf5\xe4\x74\x0d\x95\x4d\x2a\x6d\x5d\x8b\x94\x5c\x87\x87\x3a\xb1\x4e\x9c\xe5\xb5\x69\x77\xc1\x4e\xdb\x71\xb3\x7d\x8b\x14\x4d\xc6\x68\xa2\xf1\xef\xf3\xf6\x10\x97\xfd\xc9\x83\x6d\x19\x84\x72\xae\x6c\xb2\xb4\xf8\x42\xb5\xa7\xd7\xac\xf2\xb3\x0f\x91\x31\x3e\xad\x04\x35\x54\x79\xc5\x1e\xc8\xc8\x6c\xec\x6f\xf7\xce\xbd\xc0\x1f\x5b\x94\xd3\x8c\xd7\x25\x9d\x2e\xb8\xe8\x8d\x58\xa3\x80\x53\x79\x45\xe9\x59\xda\x60\x95\x57\x5d\x72\x0e\xc5\xae\xc1\xd2\xf1\x1c\x8e\x0b\x1b\x8b\xb9\x3e\x10\xd4\xed\x15\xaf\x38\xc6\x18\xed\xb0\xef\xe4\x53\xe6\x49\xd4\x16\x72\x7c\x65\xbf\xba\x47\x3d\xbf\x29\xb1\x17\x44\x76\xfb\xa3\x91\x1d\x61\x96\xfa\x36\x72\x21\xea\xdf\xb8\x78\x3c\x55\x64\xbf\x33\x2c\x9c\xb8\x1e\x57\x2c\xe7\x59\x5b\x87\x4e\x7c\x90\x49\xf7\x4c\x06\x9f\x77\x39\x63\x68\xbc\xcd\x87\x10\x1a\xc9\x93\x34\x8d\xf7\xa0\x32\xf6\x3e\x55\x15\xdf\x63\xcc\xab\xcd\x9b\x74\xb8\xb1\x8f\xc8\x96\x06\x44\x01\xdb\x8f\x92\x34\x43\x18\x8e\xe0\xf2\x12\x7e\xe1\xf0\x9c\x4c\xf0\x02\x95\xf9\xd8\x0f\xa5\x9c\x35\x9b\xc2\x94\x03\x7e\xb0\xa8\x40\x23\x5e\x1b\x76\x34\x40\xe5\x74\xef\x6d\xab\x16\x64\x70\x3e\x1a\xd7\x73\x52\x82\xde\xd3\x42\x87\x65\xce\x44\x66\xca\x75\xec\x59\x19\x9a\x21\x22\xb2\x05\x9b\x2e\xed\xd1\xaa\xde\x4b\x7b\xb3\xde\x58\xe5\xd5\x5e\xca\xaf\xd7\x3c\xc3\x10\xfd\x1c\xca\x1a\x62\xb4\x54\x76\xd8\x75\xb4\xcd\xd1\x76\x33\x70\x0f\x27\x67\x78\x25\xa4\x29\xb0\xce\xd1\xda\x93\x65\x4d\xf1\x2d\xfd\xb5\xc8\x26\x47\x45\x86\x90\x25\xaa\xd5\xb3\x89\x73\x8a\x77\x8e\xcc\x6b\xc5\xea\xeb\xc7\xaa\x8b\x88\x9d\xd5\x1d\x02\x31\x1f\xa4\xd6\xd6\x0e\x6c\x31\xd9\x47\xee\x6e\xff\xe6\xfe\x8c\x7b\x4b\xe8\x91\x52\xb3\x3a\x40\x6f\x5d\x78\xd2\x79\x33\x10\x46\x3f\x85\xb8\x9b\x3e\xca\x19\x26\xb1\x5d\xd6\xeb\xc9\xd9\x9f\xff\xe1\x7f\xff\xf8\xa7\xbf\xfb\xf1\x6f\xff\xf1\xc7\xff\xf7\xc7\xbf\xfc\xcd\xff\xf9\x97\x7f\xfa\xe7\x3f\xff\xe9\xff\xfe\xf8\xf7\x7f\xfc\xcb\x1f\xff\xff\xce\x06\x6f\xcd\x7f\xdc\x36\xfa\xa4\xfe\x08\x71\x73\x36\x04\x7a\xe7\x30\xf8\x2b\xfb\x88\x89\x0e\xcd\xd3\x06\x6f\x1c\x51\x3d\xbd\xe2\x9e\xe8\x61\xb3\xe9\xaa\xa6\x12\x33\x98\x43\x39\xcd\x5d\xfd\xa4\xbb\x0f\xeb\xa7\x16\x6c\xe5\xec\x07\x33\x84\x6c\x77\xe8\xec\x9b\x13\x08\xe6\x30\x77\x25\x02\xb5\x59\xfe\xb1\x03\x3b\x1f\x9f\x20\xda\x50\x57\x8f\x38\xba\xca\xdf\x82\xa0\x1a\x21\xb2\xc2\xbc\x08\xc2\x81\x13\xfb\x0d\x57\x2d\x10\xba\x21\x6d\xa9\x3e\x28\x91\x4f\x3d\xb6\xbd\x93\x38\x99\x6c\xb9\x68\xdf\xd9\xdd\xe1\x2a\x02\x76\xe8\xf8\xf6\x73\xe8\xcf\x4c\xdf\xa3\x51\xdb\xe2\xf8\x7e\xda\xef\x60\xee\xb3\xfb\xd6\x63\xe7\x89\x1e\x74\x84\xbe\xb5\x0f\x35\x1a\x70\x09\x84\xa4\x71\x2d\x62\x6d\x4a\x13\xcf\x17\x9e\x4d\xaf\xe3\xda\xd1\x82\x2b\xf3\xd1\x4d\xdf\x66\x44\x0f\xa5\x6b\x32\xaa\xf2\x15\x57\x1f\xeb\x25\x1c\x63\x3a\x9e\x1f\x28\x38\xe8\x16\x3e\x4c\xce\xe0\x65\x91\xad\xf4\x07\xbc\x10\x61\xdd\x5b\x52\xe2\x53\x2e\xad\xc9\x42\x51\x45\x1c\x8b\xb9\x28\xbc\xf3\xaa\x29\x5b\xaa\xa5\x5f\x0c\x5c\xe6\x42\xa1\xdd\x99\x36\xfa\x2b\x43\x18\xbf\x10\x05\x97\x12\xce\x26\x34\xa3\x5e\x7e\xaf\xd8\x3a\x60\x3d\xb6\xd2\xac\xb3\x7f\x74\x62\xb6\x43\x03\xcf\x0f\x07\x06\xda\xc8\xc0\x60\x2e\x7f\x38\x99\x3f\x98\xcd\xd7\x67\x07\xef\xd2\x38\xe7\xc6\x61\xe8\x8b\x90\x8f\xf7\x71\x8c\xab\xad\x43\x39\x18\x7e\x43\xd9\x04\x9f\xdd\x47\x63\xd0\x94\x6d\x3d\x9d\xa7\xd8\xc1\x05\xa7\xdc\x07\x56\x63\xac\x16\x95\x78\x75\xe0\x69\x33\x9f\xf3\x3a\x46\x5c\xfd\x82\x77\xf0\x4b\x4a\x28\x4e\x11\xec\x7e\x75\xee\xe0\x77\x68\xdc\x47\x68\x8f\xcd\xd9\xbe\x78\x72\xfb\x9a\xaa\x07\x6d\xdb\xe1\xbf\x49\x5b\x74\x88\xe3\xc1\xc4\xb9\xdd\x33\xdd\xce\x45\x5c\x10\xd1\x62\x0c\xb2\xbe\x37\xcf\xee\xa3\x82\xe4\xd9\xef\x7e\xcf\xf0\xd8\x8b\xb3\x7d\x57\x60\x5f\x37\x53\xc7\x00\x88\x03\xaa\xf2\x86\xbf\x6e\xa6\x72\x56\x8b\xa9\xf9\x04\xd0\xce\x2d\x57\xff\x0b\x2b\xe8\xed\xf7\xf5\x41\x59\x5d\xdf\xfb\x3d\x35\x10\xfe\x5c\x2e\xf4\x62\x47\x07\x39\x8b\x38\x04\x03\x0e\xfd\x88\x7b\x37\x48\x3d\x36\x58\xaf\x3b\x5f\x29\x61\x77\xdc\xdb\xb0\x63\xbf\xfc\x83\x43\x8e\xf8\xf2\x4f\x0b\xf9\xe0\xe5\xa3\xce\x17\x8e\x13\x47\x60\xba\xd2\x31\xf2\xf7\x7a\xe0\x8b\x3f\xfb\x21\x50\x69\xca\xbf\xbf\x0f\xff\xb4\xeb\x3a\x78\x9b\x98\x98\xd4\xed\xf1\x05\x74\xd7\x8c\x77\x70\xdc\xb2\x4f\xfa\xe8\x0f\x6e\x94\xd7\x83\xf4\xd5\x98\xbe\x62\x70\x5d\xf4\xf6\xf1\x72\xaf\x6d\x8f\xad\x5a\xaf\x53\xbf\x0a\xe4\xed\xb2\x77\xdd\xe3\xf4\xaf\x02\x79\x70\x5c\xe1\xf8\x61\xe2\x7a\xcb\x03\x80\xb3\x2e\x75\x5b\xd2\xee\x7c\xeb\x87\x66\xda\xce\x37\x0d\xcd\xe3\x65\x3c\x90\x64\xeb\x75\x97\xec\xfd\x99\xb7\x5c\x2e\x48\x00\x3e\x97\x8b\xe1\x44\xc7\x6e\x0d\x70\xdf\x15\xd8\x3d\x37\x09\x72\xb9\x48\x9e\x69\xbd\xd7\x5f\xfb\xda\x57\xaa\x61\x79\x79\xe0\x3e\x2d\x91\x87\xa2\xe1\x6d\xf1\x62\x0f\xbf\x6c\x07\xac\xf5\x82\x8f\x28\x5e\xc4\x00\x0c\x94\xd3\xdf\x63\x51\x0e\xc5\xa3\xa5\xdb\x2f\xfb\xd5\x95\xe7\xac\x58\xe9\x50\xcd\x39\x66\x66\x6d\x91\x8e\xf9\x3a\x63\x83\x11\x0c\x4c\x84\x21\x7a\x28\x00\x0b\x29\x30\x0d\x4b\x37\xbc\x48\xa8\x0d\xe2\x3d\x90\x2d\xc5\x79\xc9\x9e\x1f\x43\x31\xeb\x68\x30\x97\x27\xea\x0f\x50\x5b\x3a\x77\x78\xd0\xcc\x8f\x4b\xf0\x27\xa6\x89\x70\x86\x16\xec\xe8\x94\x3a\x2b\x5c\x11\xe5\x2c\x6c\xdb\x09\x75\x56\xde\xe8\x03\xdf\xf8\xc0\xe5\xff\x5b\x7f\xe3\xa3\xc5\x6e\xd7\x8a\x18\x54\x40\x37\xcd\x34\x13\x72\xc9\xeb\x53\xca\xa8\x86\x3f\xf0\xe1\x0b\x04\xdf\x16\xf0\x64\x8f\x2d\xed\xd9\xd1\xe4\xfb\x6b\x7b\xd6\x64\xff\x0f\x0f\xbb\xdc\xe2\xa1\x17\xfc\xc1\xad\x8e\xaa\x7b\xdc\x17\x3c\x82\xa0\xd7\x58\xf1\xb5\x47\x44\x1d\x7b\x8e\x82\x5f\xb5\xf3\x8c\x1f\xd2\x19\xbb\xe5\x3a\xdb\xd5\x3a\x9d\xea\x68\x27\x50\xec\xc9\xe8\xad\xcd\xe9\x15\xb9\xe4\x4a\x79\x88\x6c\xd5\xce\x9c\xfe\x15\x0e\x5c\xd8\x50\x99\xc1\x90\xd8\x77\xd5\x05\x03\x54\xe9\x95\x7d\xc7\x7d\x85\xc3\xea\x85\xbf\xda\xf7\x36\x06\x50\x3e\x42\x55\xc1\xb0\xae\xc2\xa2\xca\x23\xd4\x10\xaf\x6b\x3b\xdf\x8e\x3a\x9a\x4c\x60\x57\x23\x4d\x26\xb0\xf1\xa0\xdb\xc1\x89\xbe\x59\x61\x07\x7f\xfe\xf9\xee\xbb\x04\x73\xdb\x18\xff\x8f\xde\x0b\xba\x2f\xf8\x3e\x1a\x98\xc6\xe6\xfb\x77\x81\xd8\xb2\x6e\x8b\x48\x4f\x8e\xbc\xf7\x2b\x22\xc7\x2a\xe5\xbe\xe4\xf5\x7e\xad\xdc\xff\xb9\x2e\x9f\x87\x49\x37\xf7\xab\x66\xca\xa3\xee\xd1\xcc\xdd\x8b\x58\xee\xff\x36\x89\x6a\xb9\x28\x42\xa2\x5d\x87\x01\x65\x8d\x5b\x6d\x25\xfd\x73\xb9\xd8\xd6\xd5\xe7\x1a\xd7\x9f\x47\x61\x1f\x6b\x63\x1d\xca\x20\x5b\x92\x0f\x2a\x68\x37\x91\x3e\x11\x0e\xdc\xc8\xdb\x86\x7f\x1d\x00\xc2\xc1\x0d\xf4\xe6\x6b\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x4d\x8f\xe4\x38\x76\xe0\x59\xfa\x15\xaf\x85\xfe\x90\x72\x23\x15\x3d\x0b\xec\x62\x36\x1b\xb9\x40\x55\x56\xf6\xc7\x4c\x57\x55\x4e\x55\xd6\xf4\xa1\x50\xa8\x61\x84\x18\x11\x9c\x54\x48\x2a\x91\xca\xcc\x98\xd8\xb8\xec\x65\x16\xd8\x05\x16\xf0\xc9\x07\x63\xe0\x93\xaf\x86\xcf\xfe\x3d\xd3\xc6\xfc\x0b\xe3\x91\x8f\x14\x15\x21\xc5\x47\x75\x8f\x61\x18\x2e\xc0\xd3\x19\x12\xf9\xf8\xf8\xde\xe3\xfb\xa6\x3c\x1e\xc3\x55\x99\x71\x98\xf3\x82\xd7\x4c\xf1\x0c\x26\x2b\x98\xb0\xba\x2c\x52\x78\xf6\x12\x5e\xbc\xbc\x85\xeb\x67\xdf\xdd\xa6\xe1\x78\x0c\xaf\x78\xdd\x14\x85\x28\xe6\x66\x00\x3c\x88\x3c\x87\xf2\x9e\xd7\x0f\xb5\x50\x1c\xd4\x42\x48\x98\x89\x9c\xeb\xc1\xbf\xe5\xb5\x14\x65\x71\x01\xeb\x75\x4a\x7f\x6f\x36\xde\x0b\x78\xc6\x14\xf7\xdf\xe2\xef\xcd\x26\x0c\x2b\x36\xbd\x63\x73\x8e\x6f\x6e\xcc\x9f\x2f\xd8\x52\xbf\x19\x8f\xe1\xd6\xae\x01\xd3\xb2\x50\x4c\x14\x12\x96\x5c\x2d\xca\x4c\x82\x2a\x61\xc9\xee\x38\x88\x22\x13\xf7\x22\x6b\x58\x0e\xbc\xc8\xaa\x52\x14\x4a\xc2\xac\x2e\x97\x20\x79\x7d\x2f\xa6\x5c\x8e\x10\x8d\x9a\x7f\x68\xb8\x54\xc0\x8a\x0c\x6a\x2e\xab\xb2\x90\x1c\xd4\xaa\xe2\x1a\x12\x0e\xc5\x1d\x95\x92\xb7\x50\x46\xc0\x24\x3c\xf0\x3c\xc7\xff\xf2\x62\x5a\x66\xbc\x96\x08\x00\xe1\x65\x9c\x7e\xcf\xca\x9a\x26\x6a\x68\x23\xfd\x80\x21\xa5\x66\x50\x36\x35\xc8\xa6\xaa\xca\x1a\x29\xad\x6a\x56\x48\xfc\x1b\x31\x13\x2c\x17\x7f\x60\x4a\x94\x05\x42\x9b\x95\xf5\x92\x29\x99\x86\xa1\x58\xea\x11\x71\x18\x44\x93\x95\xe2\x32\x0a\x83\x08\xf7\xce\x1f\x15\xfe\xa9\xd1\x10\xc5\x7c\xfc\x7b\x59\x16\xf8\x60\xb6\xd4\xcf\x45\x69\xfe\x77\x2c\xca\x46\x89\x1c\x7f\x14\x5c\x8d\x17\x4a\x55\xf6\xef\xa6\xd6\x8f\xa5\xaa\xa7\x65\x71\x4f\x7f\x8a\x62\x2e\xa3\x30\x0c\xa2\xb9\x50\x8b\x66\x92\x4e\xcb\xe5\x78\x5e\x9e\xdf\x09\x35\xc6\xff\xb3\xb4\x88\xc2\x80\x15\xab\x6a\x02\xd1\xbc\x2c\xe7\x39\x4f\xe7\x65\xce\x8a\x79\x5a\xd6\xf3\x71\x55\x97\xaa\x9c\x34\xb3\xb1\xde\xff\xf8\xae\x28\x1f\x8a\xb1\x1e\x1d\x85\x41\xd6\xd4\x7a\x93\x27\x4c\x6d\xa7\x44\x61\xc0\x97\x95\x3a\x65\x5d\x1a\x1f\x85\xc1\x4c\xf0\x3c\x5b\x32\x79\x77\xc2\x6c\x6f\x4e\x14\x06\x52\xd5\xcd\x54\x9d\x30\xdd\x4e\x88\xc2\x40\x89\x25\x97\x8a\x2d\xab\x13\xa6\x7b\x73\xa2\x30\x78\xa8\x59\x55\xf1\x5a\x9e\x00\xa0\x9d\xb2\xcb\xd2\x5a\xe4\x39\x1b\x2f\x9b\xc7\xa8\xfb\xa6\xba\x9b\x8f\x79\x5d\x97\xb5\x96\xb4\x3d\x0b\x39\xc9\xd3\x4f\xac\xf8\xed\x99\xa0\xff\x40\x44\xd6\xeb\x73\x10\x33\xe0\x1f\x20\xbd\x2a\x8b\x99\x98\xa7\xb7\xee\x24\x44\x2c\xcf\x23\x88\x0a\xa6\x64\x04\x9b\x4d\x17\x37\x7c\x7a\x2e\x4a\xfd\xdf\x74\x8e\x12\x8e\xa0\x78\x91\x6d\x36\x47\x41\x9d\xd7\xd5\xd4\x42\xdd\xc1\x53\xbf\x1c\x7c\x33\x5e\x72\xc5\x32\xa6\xd8\xf6\xa2\x47\x2f\x89\xf0\xdb\x13\x3f\x70\xbe\xdc\x00\x8b\x8e\xb7\x16\x9e\xdd\x13\x00\xe0\xf0\xe8\x28\xb2\xb4\xc4\xc6\xbf\x4e\x58\x02\x87\x77\x70\x4c\xc2\x30\xbc\x67\x35\xc4\x61\xf0\x1e\x2e\x61\xb6\x54\xe9\xeb\xaa\x16\x85\x32\xbf\xb5\x02\x4b\xaf\xca\x65\xc5\x6a\x6e\x1e\x91\xf6\x49\x9f\xa8\x52\x98\x27\x9d\x6d\xa6\x2f\xf8\xc3\x6b\x5e\xdf\xf3\xda\xbc\x34\xda\x2c\x7d\x51\x56\x57\x79\x29\xdb\xa7\xe9\x55\x59\xad\xcc\x0f\x23\xbc\xe9\x0f\x35\xab\xc2\x60\x3c\x06\xe2\xa7\x15\x43\xa3\xe3\x71\xa8\x56\x49\xe9\x93\x42\xcf\x6b\x95\x4c\xfa\x8c\xfe\xc4\xc7\xa4\x3e\xd2\x6b\xfc\x2f\x3e\xb0\x47\x3a\x7d\xad\xff\xc0\x47\xde\x31\x4d\x6f\xed\xdf\xf8\xa2\x3d\x7e\x38\x5a\x14\xf3\xdf\xb2\xbc\xd1\xfb\xf6\xf4\x4a\xfa\x35\xfe\xfd\x9c\xc9\xbb\x30\x09\xc3\xf1\xd9\x51\xff\xe0\xda\xda\x24\xb0\x8f\x0e\xff\x1b\x6b\x0b\xfa\x5d\x01\x0c\xed\xcd\x3d\xaf\x47\x20\xd4\x17\x12\x1a\xc9\x67\x4d\xae\xcd\xd4\xac\x29\xa6\x48\x05\x09\x6a\xc1\x14\x14\x1c\xad\x54\x09\x65\xa5\x7d\x03\x28\x71\x6e\xc5\xeb\x73\x6b\x06\x10\xe0\x84\x49\x21\x53\xf8\xba\xac\x81\x3f\xb2\x65\x95\xf3\x11\xac\xca\x06\x96\x62\xbe\x50\x50\x31\x89\x26\xd2\x43\x58\x95\xc0\xdc\x42\x66\x9d\xaa\x2e\xb3\x66\xca\x25\x82\x63\x85\x96\x80\xf4\x5b\x56\x64\x39\xe2\xf8\x20\xd4\x02\x38\x9b\x2e\xc8\xd2\x43\x6c\x57\x4f\xe0\x41\xd4\x3c\x83\xa6\x42\x24\x19\xc8\x8a\x4f\xc5\x4c\x4c\xa1\x62\x6a\x91\x42\xfc\x9d\x42\x80\x42\x42\x55\x97\x13\x36\xc9\x57\xc0\x60\x29\xa4\x32\x5e\x02\x64\x5c\x8a\x79\x81\x53\x45\x71\x5f\xde\xa1\xb9\xe7\x80\xc2\x26\xa6\xdc\x79\x15\x1a\x45\x8e\x70\xda\x1d\x18\x19\x00\xd1\x52\x32\x4d\xc2\xf1\xd8\x51\x77\x9a\x0b\x5e\xa8\x2e\x75\x55\x09\xd3\x32\xcf\xf9\x54\x79\x0e\x4a\xbe\x82\x69\x59\x18\x70\x3c\xf3\xdc\x15\x51\xe0\x86\x10\xa0\x14\xc5\x3c\x37\x8e\x89\xa1\x95\x40\x0a\x2f\x39\xe2\xe1\xe3\x2b\x0a\xc5\xeb\x19\x9b\xf2\x21\x4e\x20\x30\xb7\x58\xbf\x93\xd4\xe0\x62\xad\x57\xa2\x9d\x05\x3c\x80\x57\xb4\x9f\x69\xb9\x9c\x88\x42\xd3\x69\x49\x28\x7a\x8c\x1d\x91\x2b\xa5\x9a\xba\x00\xa1\x90\xae\x88\xe0\x94\xe5\x39\xaf\xd1\x63\x62\x16\xd9\x34\xd4\xdb\xd9\x21\xe8\x3a\x0c\xde\x14\x6e\x7f\x3c\x5b\xaf\x53\x3b\xc3\xb8\x80\xa4\x09\xd6\xeb\x9a\x15\x73\x0e\x9f\x0a\xb8\xb8\x04\x37\xe6\xb9\x61\x19\xea\xb1\xf5\xfa\x53\x41\x73\xec\x2a\x00\xe0\xb6\x9a\xda\x87\xe1\x7a\x6d\x94\xab\xf1\x2e\xed\x63\x79\x78\x09\x14\x60\x88\xbd\x4d\x24\xe0\x2d\x1a\x4f\xd5\x23\x90\x97\x86\xa6\x01\xff\x3b\x42\x81\x39\x5b\xaf\xbf\x29\x11\x31\xf8\x54\xa4\xaf\x8c\x0b\x7a\xbb\xaa\xec\x06\x13\x88\xb7\x46\x18\xc7\xd4\x1b\x32\x32\x0a\x2e\x81\x75\x18\x58\xbf\x55\x3f\x43\x44\x79\xda\xb3\x73\x44\x06\x17\x4f\xc2\x00\x8d\x55\x5d\xc3\x27\x97\x50\x88\x1c\x21\x04\xc4\xaf\x42\xe4\x1a\x48\x18\x6c\x42\xfb\xcc\x42\x4f\x0f\xe2\x94\x8c\x10\x5e\xb8\x71\xe4\x44\x62\x3e\x67\x77\x1e\x79\xc2\xf5\x5a\x1f\xe4\x4f\x15\x47\x44\xd3\x0d\x0e\x3e\x07\x9f\xca\x9f\x2a\x3e\x44\x68\x84\xd5\xb7\x33\x89\x44\x57\xbc\x57\x4c\x92\x5d\x76\xc3\xda\x6d\x0e\xf9\xd7\xcf\x25\x1b\x18\xb8\x13\xb5\xde\x24\x10\x5b\x62\xf8\x8f\x35\xc5\x3c\x76\x04\x35\xff\x80\x1b\x21\x08\x69\x7c\x88\xdb\x61\x10\xdc\x3b\xde\x49\x9f\x77\x88\x9a\x46\x25\x09\x83\x1e\xae\xed\xb2\x0d\xf9\x66\x9f\xde\x1b\x76\x04\x28\xd6\xad\x6d\xf6\x79\x83\xc6\xf1\x49\x9e\x5f\x3f\x4e\x79\xa5\xb4\x9d\x92\x46\xc5\x3a\x4a\x69\x0b\x85\x21\x0b\x9d\x4d\xfb\x42\x82\x66\x23\x43\x28\x9e\x4f\xe0\x48\xfd\x5c\x64\x59\xce\x1f\x58\x6d\xa2\xc0\x37\xd2\xc6\x85\x18\x04\x55\x55\xbe\x42\x15\x83\x6a\x53\x21\xf0\xa5\x1b\xad\xa3\x2e\x7e\xcf\xeb\x95\x63\x1b\x9e\x17\xd4\x20\x14\xb6\x69\x78\x2f\x2b\xb4\x1a\x2c\xcf\x57\x23\x37\x4e\xc2\x94\x15\x30\xe1\xda\xd6\xf0\x0c\xa7\x4d\x56\x50\x20\xd9\x55\x89\xcf\xf9\xe3\x34\x6f\x32\x9e\x99\x28\x70\xc2\x11\x05\xdc\x73\xc5\xb3\x74\x87\x1a\x71\x8b\xd3\x08\xa2\xd7\x8a\xa9\x46\x46\x23\x88\x6e\x44\x31\x8f\x12\x77\xee\xcf\x1c\x41\x92\xc1\xf9\x0e\x43\x8f\x2a\xa3\x16\x9b\x34\x4d\xa5\x76\x0b\xb4\xf0\x88\x82\x1e\x5f\x5c\xc2\x92\x55\x6f\xcd\xab\x77\x86\xfc\xeb\x0d\x8a\xd7\xf6\x81\xe9\x39\x2d\x41\x10\x44\x9e\x18\x45\x17\xb0\xde\x8c\xc2\xc0\x77\x23\x37\x61\x18\xa0\xad\x7f\x8f\xa8\x20\x18\x03\xd2\xa1\x85\x2b\x89\x19\xbc\x1f\x41\x79\x87\xaf\x2d\x62\x6f\xf9\xe3\xbb\xaf\xe0\x93\xf2\x0e\xb1\x0d\x82\x8a\x15\x62\x1a\xb7\x1e\xde\x2c\x8e\xae\x2d\x08\xbb\x6f\xf8\xe2\x33\xf9\x05\x64\x25\x97\x50\x94\x0a\xf8\xa3\x90\xea\x2b\x90\x9c\xfb\x8c\x77\x31\xa5\x76\xe9\x11\xa9\x24\x21\x79\xce\x78\xce\x15\x8f\x2d\x06\xfa\x5d\xbb\x01\x51\x4c\x5b\xf4\xed\x18\x38\x9e\x50\x62\xa6\x41\x5c\x5e\x42\x87\x64\x1a\x42\x10\xf4\xaa\x52\xb8\xf4\x30\x8f\x7b\x87\x20\xee\xc1\x66\x9b\xe4\xe6\xd8\x7d\xcf\x26\x3c\xe7\x59\x2b\x0d\x26\x85\x32\xe7\xca\xca\x2e\xca\xbb\xa3\x9e\x16\xe1\x87\x05\x2f\xdc\xdb\xd2\x13\x57\x02\x66\xa4\x6e\x64\x4e\x19\x1d\x84\xc6\x0c\x06\x93\x97\x61\x26\xb9\x23\xa6\xe8\xd4\xd4\x62\xaa\xdd\xac\x76\x1b\xf0\xb0\x10\xd3\x85\x3e\x43\x92\x17\x7d\x28\x90\x25\xa7\xd9\xd6\x8f\x29\x6b\xb2\xe3\xbb\xbb\xc2\x43\x12\x1b\x01\x1e\xed\x6a\xe1\x1e\xc5\x1c\x0e\xed\xeb\xa3\x75\xd3\x0e\x52\x23\xda\xa7\xa6\x78\xcd\xa7\x5c\xdc\xa3\x6a\xe2\x66\x8b\xe5\xac\xb3\xef\x14\x5e\x73\xee\xc0\x78\x50\xf4\x0b\xeb\x88\x12\xc2\xd7\x8f\x88\x28\x4a\x64\xc6\x15\x13\xb9\x44\x3f\xd9\x1e\x27\x04\x62\x9d\x5d\x96\x0b\xb5\x4a\xf7\xa9\x90\xce\xde\xe3\xe5\x4f\xa0\xe8\x7f\xea\x99\xff\x38\x7a\xa6\x33\x6d\x04\x27\xa9\x9d\xe3\x13\x14\xc7\x86\x9e\xdf\xbc\xba\xb9\xc2\x7d\xf2\xfa\xe4\xd8\x13\xdd\x38\x6f\x3a\xa6\x6b\x65\xeb\x0c\x38\xfe\x00\xbb\x67\x22\x67\x93\x9c\x9b\xb0\x61\xfe\xea\xe6\x0a\x06\x82\x01\x3a\x4e\x5d\xc8\x2e\x42\x94\xad\x6e\x18\x41\xa9\x7d\x07\x89\xe7\xa1\x93\x8b\xd1\xe2\xcd\x6b\xe3\x5a\x24\x43\x0b\x21\xbb\xa4\x37\x50\xa2\x4c\xbc\x7d\x37\x0c\x09\xa5\xb7\xef\xed\x53\x3e\x2b\x6b\x1e\x23\xb6\xcf\x29\xa7\x74\x5b\x92\xf7\x99\x8c\x90\x6b\x5b\xeb\x5c\xa2\xe3\xc4\x8b\x2c\xee\x3c\x76\xfb\x49\xd3\x34\xd1\x89\x8e\xf5\x1a\x6e\xcb\xef\xcb\x07\x5e\xb7\x82\x88\xa4\x42\xe6\x5a\xd7\xf0\x73\xc4\x08\x5f\xf2\x7a\x8d\x61\xd2\x41\xe9\x5d\xaf\x2d\x4c\x27\x72\x17\xd0\xdd\x96\x4b\xd1\xc4\x28\xd0\x8e\xf4\x7d\x52\x8a\xae\x48\xf0\x4c\x67\xca\x71\xff\xde\x08\xf2\x8e\xf5\x80\xeb\xa2\x77\x00\xc5\x3a\x38\xa2\x43\x89\x34\x4d\x71\x1a\xd2\x6e\x4b\xf8\x51\xf9\xb6\x1b\xde\x0e\x9d\x9d\x73\xde\xcf\x6f\xe7\xe8\x1b\x2b\xe7\xc1\xf9\x2b\x84\xab\x3b\x44\x06\xd8\xa2\x32\xe5\x43\x3c\x87\x9e\xc2\x2c\x4a\x54\xa0\xaa\xf5\x70\x54\x65\xbb\xdd\xe3\x77\x7a\x10\x55\x7d\xd8\x62\x09\x67\xed\x52\x49\x0b\xfe\x40\xfc\x8b\xe1\xd1\xcf\x1b\x00\xbf\xc7\x18\xa9\xea\x84\x50\x3b\x94\xd4\xbb\xd0\xd2\xe4\x07\x55\x27\x46\xc2\xd5\x47\x06\xc1\x44\x61\x23\xf2\x87\xc9\x3b\x1e\xc3\xbe\xd3\x01\x02\xd5\xa1\x93\x09\x9d\x23\x4e\xcd\x04\x1a\xf1\x35\xf2\x47\xe7\x89\xb0\xa6\xc3\x6b\x25\x4d\x1a\x89\x54\xe8\xae\x98\xd9\x68\x17\x93\x39\x98\xab\xaa\xcf\xb3\x72\xc9\x44\xb1\x6f\x70\x0a\x37\xb5\x58\xb2\x5a\xe4\x2b\x9b\xde\xf2\x73\x61\x46\x23\xef\xdb\x47\xfc\x7e\x57\x38\x70\x2f\xaf\xf8\x87\x56\x18\x75\xd8\xed\xfd\xea\x26\x3e\x74\xa0\x4d\x73\x8e\x09\xb4\x1d\x27\x3f\xec\x61\xd3\x75\x71\x34\x9b\xf6\xea\xa8\x5e\x3e\x99\x19\x76\xc8\x10\xa3\x0e\xb3\x80\x96\xd0\x0c\xdb\xc3\xd6\x2a\x5f\x1d\xc5\xa7\xbd\x1b\xe9\x63\x54\x5f\x26\x64\x1f\xa7\x64\x85\xac\xb2\xb3\x8e\x38\x47\x1e\xb3\x64\xd5\xc7\xad\x6f\x79\x8e\x69\xf5\xd0\x08\x5a\xaf\x21\xed\x57\x40\xcb\x0c\x6c\x19\x27\x7d\xfe\x2c\xd9\x1e\x80\xf8\xa2\x1a\xbd\x1b\xc1\x7d\xeb\xf1\x2d\x9d\xab\x7a\xdf\x49\xc1\xe8\x6a\x34\x87\x3b\xbe\xd2\xec\xce\xd0\xa7\x9d\x94\x6a\x81\x34\xb6\xab\x50\x1d\x17\xe2\xbb\x84\xc2\x0f\x1c\x9a\xe7\x90\x23\xbf\x08\x0a\xa3\xa0\x4b\xa7\x5b\xaf\x58\x51\x16\x62\xca\xf2\x6f\x39\xcb\x78\xfd\x6b\xbe\xb2\xb1\x09\x2e\x24\x4b\x4a\x02\x2b\x0a\xf5\x2c\x88\xe9\x94\xdb\xdc\x07\x17\x6a\xc1\x6b\x5a\x19\xdf\x23\x29\x2e\xdd\x5e\x7f\x10\x6a\xa1\xeb\x10\x48\xa2\x91\xde\xeb\xdb\x2f\xdf\x25\x07\x07\x0e\x60\x17\xdf\x25\x2d\x04\xf2\xfa\x89\x7d\x53\xf5\xa8\x6d\xb0\xf5\x01\xf7\xff\xd3\x7c\x34\x99\xe6\x93\xfd\xca\x17\xfc\xc1\x9b\x6d\x96\xd7\x55\x07\x4a\x1d\xc1\x84\x4d\xef\x90\x3d\x2b\x7b\x66\x4c\x8a\x1e\xf7\x5a\x70\x5d\xf1\x48\xe1\x3b\x85\x7c\xa4\x64\x3f\x89\xab\x98\x08\x8c\xd9\x2c\x0b\x28\x97\xad\x4a\xc8\x04\xcb\x4d\xc2\x3b\x67\x8a\xd7\x30\xc5\x6a\x14\x06\xe1\xdc\x87\x69\x04\xb4\x83\x5d\x8c\xaf\x8d\xf9\x4c\x0d\xbe\x57\x65\x51\xec\x71\x4e\xcd\x20\xeb\x9c\xc6\x03\xde\xa9\x7f\xe4\xd0\x43\xd8\xce\xb5\x06\xde\xd3\xea\x6e\x8e\x27\xcd\xa6\x5c\xbb\x4d\x16\xc1\x6e\x54\xe3\x27\x58\x5b\x1d\x18\xdc\xb3\xba\x4f\xf5\x58\x57\x6f\x37\x24\x0d\x83\x75\xbf\x43\xe9\xa6\x5c\xee\x7a\x96\x44\x35\x2d\x9e\x48\x28\x8a\x3c\xcb\xba\x83\x16\x72\x1f\x97\x87\xd8\xc4\x88\x10\x7d\x26\xd3\xcf\x64\xd4\x6e\xd6\x1f\x8d\x23\x13\x0c\xa5\x3c\x60\xa2\x85\xe1\xf0\x8a\xf6\x79\xa3\xad\xbb\xfa\x8c\x1f\x72\x57\x0f\x68\x3c\x93\xa2\x0b\x5a\x7f\x1e\x7f\x26\x8e\x6e\xb1\x8e\x45\x35\x63\xc8\xb7\x6d\xff\xb2\x7f\xb8\x43\x67\x27\xc9\x83\xee\x3d\x9c\x13\x28\x87\xb3\x9d\x7b\x81\xb5\x92\x3d\x7c\x1a\xb5\xeb\x06\x1b\xab\xa0\x51\x31\x23\x0d\x80\x4e\xe1\x4f\x77\x79\xf6\xd8\xd2\x67\xfc\x18\x5b\xba\xdf\x3a\x1e\xeb\xf2\x90\xdd\x1a\xb0\xa5\x46\x91\xd0\x49\x7f\xc6\x4f\xb4\xa5\xb8\x99\x57\x1a\x99\x23\x8d\x29\x0e\x75\x8e\x0f\x9a\xf8\x93\xcc\x69\x95\xaf\xfa\xec\xa9\xcf\xb6\x9f\xee\x02\x0d\x7b\xaa\xd7\xc5\x11\x9e\xea\x61\x86\x78\x0e\xeb\x1e\x0e\xef\xf5\x54\x3b\x5c\xdb\xb7\x8f\x7e\x07\x88\xb6\x78\x1c\xcb\x4e\x2d\x09\xed\xf7\x54\x09\x0b\x6d\xc1\xe5\x6d\xe9\x3b\x3f\xe6\xa4\xf4\x59\x0f\x5a\x07\xcf\x89\x11\xd4\x3d\x50\xe2\x3b\xbe\x92\xf0\xf6\x9d\x4d\x19\x1e\x80\x77\x54\x49\x6d\x99\xc1\xd9\x21\xc7\x4b\xdb\x93\x8a\x89\xba\x5d\x3c\x0c\x6c\x02\xf1\xae\x75\xc7\x34\x7a\x6b\xca\xab\xdd\xdb\xe4\xe1\x54\x3d\xa6\x9a\x26\xf1\x5d\x92\x52\xa2\x34\xf9\x0a\x6c\x12\x31\x30\x80\x5d\x26\x45\xff\x34\xce\x8f\x4b\x9c\xa1\x12\x45\x98\xfa\x5d\xc7\xd3\x3b\x5b\x66\x98\x90\xb3\x1b\xf8\x55\x29\x8a\xf8\x6c\x99\x8d\xda\x47\x37\x38\x27\xd6\x33\x31\x1d\x93\x58\x70\x44\x19\xf4\x84\x28\x1b\x67\x38\x79\x6c\xae\xed\xdb\xdb\xdb\x1b\x8a\x4d\xec\xb3\xc3\xff\xc6\x61\xa8\x0b\xfd\x86\xca\x85\x16\x2f\xb8\x84\x88\x55\x55\x2e\xa6\xba\xb5\x45\x77\x0b\x7e\x05\xd3\x05\xab\x25\x57\x97\x8d\x9a\x9d\xff\x32\x72\x29\x3a\x5c\x95\xd2\x0d\x54\xcf\x47\xc1\x5a\xd0\x13\x7d\x66\x0f\xa7\xee\x10\x58\x59\x40\x55\xf3\x8c\xcf\x44\xc1\x33\xdd\x95\x21\xe9\xcc\x6d\x2d\x73\x30\x61\xd7\x6d\x0a\xea\x26\xec\xfc\x76\x11\xeb\xff\x88\x19\xa4\x1a\xbe\x0e\x15\x3c\xbd\xb5\x95\x3b\x42\xd9\x79\xfb\x6e\x18\xba\xe6\x7f\xdf\x6b\xca\xe2\x99\x35\xd0\x17\x96\x9d\x24\x5e\xff\xa4\x6b\xd4\xe4\x46\xdd\xd4\x31\xf7\x7e\x0c\x4f\x79\x32\x53\xbc\x8e\xb7\xdf\xa8\xab\x96\xb5\xb1\xc7\xe6\x44\x03\xda\xdd\xe5\x51\x29\x44\xca\x2c\xe9\x74\xe1\x12\x09\xb3\x6c\x1e\xd1\x05\x7b\x55\x36\x88\x43\x12\x7a\x1e\x05\x55\x40\x2e\x2e\x07\xc9\xec\x86\x4e\xb0\xd7\xa4\x98\x23\x40\x9a\x96\x3e\x35\x8f\x28\x3f\xbe\xb4\xf3\x74\xa2\x9b\x86\x63\x57\xf0\x04\xfe\x17\xdc\x96\x6f\xb0\xeb\x71\xb3\x89\x92\xf4\x86\xa9\x45\x67\x0c\x3e\xb8\xe5\xcb\x0a\x7d\x70\x3d\xc2\x8a\xd3\x40\x0f\x99\x4e\x50\x76\x33\x94\x84\xd1\x8e\x83\xe3\xfc\x3a\xdc\x9e\xb7\xa4\xae\xd0\x38\xf3\x60\x06\x1a\x8e\xe2\xc0\x6f\x4c\xa1\xcd\x9a\x61\xf3\xba\x2f\x59\x19\xe8\xda\x43\x9b\xcb\xf3\xff\x24\xa5\xb1\x24\xa7\xca\x17\x1a\x53\xd1\xd3\x51\x8a\x71\x0b\x6c\x6d\xce\xae\xf8\x03\xbe\xaf\x47\x18\xe9\x64\x7c\xc6\x9a\x5c\xa1\xb5\x33\x02\x82\x27\x52\xa7\x32\xcb\x19\x6c\xeb\x82\x11\x30\x98\x94\x99\x0e\x36\x51\x37\x98\x50\x01\x43\xce\x48\xaf\x13\xb9\x28\xf5\x1e\xb5\x2c\x82\xd2\xcf\x53\x8d\x5d\x9c\x98\x58\x88\x81\xd4\xf5\x72\x40\x7a\x20\xa8\xff\xf6\xe5\x97\x29\x7c\x47\xb5\x35\x1c\xe9\xe7\x60\xcd\xb9\xe1\xb5\x6e\xc7\xc6\x11\x55\x5d\xde\x0b\x0c\xa3\x17\xfa\x0d\xb6\x1a\xe4\x39\x16\xf0\x35\xb6\xa6\xa4\x89\xe3\x5a\x9f\xcc\x07\x8d\x50\x3c\xe8\xb8\x8b\xf4\x39\xab\xe5\x82\xe9\x36\x32\x8b\xff\xd2\x3c\xc2\x1e\x00\xd9\x4c\xa7\x9c\x67\xd2\xc4\x6d\xbf\x7a\xfd\xf2\x05\x75\x75\x67\xb6\x05\xdb\x06\x7e\x7a\xaf\x0e\x1d\x2c\xaf\x0e\x6f\xcb\xb4\x0c\x60\x53\x7d\x3d\xb2\xe1\xa4\xdb\x59\xfb\xb2\x03\x0d\x44\x21\x15\x67\x99\xa5\x99\x51\x92\xbe\x86\xe8\x73\x44\x5c\xf7\xc9\x08\x1e\x4c\xd3\x5c\x57\x0c\xb4\xcf\x88\x5c\x1d\xc1\x7b\x3c\x7e\x3e\x49\x8c\xfa\xc1\x0a\x66\xc5\xeb\xb5\xe6\xe2\x05\xee\xc5\x32\x14\x3d\x11\x31\xb3\xd4\x42\x02\x1a\x43\x8b\x43\xe2\x2e\x6d\x5b\x3b\x2b\x66\x80\xaf\x9e\xea\x25\x69\xea\xb5\x49\xcd\x3a\x40\x76\x1e\x92\x3b\x4e\xbe\xb2\x2b\xe0\xb0\x4b\xcf\xe6\x22\xda\x70\xe9\xc0\xd9\xe4\x42\xf0\x90\x1a\xb1\x89\x93\xf4\x35\x57\x71\x44\x8a\xf0\xfc\x76\x55\xf1\x68\xe4\x9b\x3c\xb3\x81\x85\x15\x32\x1f\xff\xae\x7a\xb0\x72\xd8\xee\x03\xbd\x0e\xcf\xe5\xb0\x30\x68\xa4\x8c\x35\x61\x83\x6d\x5c\xee\x46\x3d\x23\xd3\x6f\xb8\x8a\xef\x6c\xa5\x71\x13\x06\xfa\x68\x5c\x98\x36\xd7\xd4\x88\xc3\x77\xe8\x3a\x16\x2c\xf7\x8c\x84\xc6\x5d\x4e\xf7\x60\xed\x89\x59\x8b\xb8\x06\x7e\x09\x72\x4a\x90\xf1\x35\x85\x8f\x0f\xa9\x16\x0a\xc2\x18\x07\x26\xee\x61\x8c\xd4\x4e\x50\xdf\xb4\x72\x67\x62\x99\x3a\x9e\x34\x33\x78\xfb\x0e\x3b\x77\x13\x92\xf5\x75\xa8\x7d\xb5\x07\xf0\x45\xc8\x65\xd4\xad\x9c\xbd\x29\x88\xb3\x08\x61\x04\x9f\x3f\x24\x5f\x6d\x67\xdc\x8d\x97\x22\xc5\x1f\x38\x5c\xc2\x2f\x7f\xf1\x3f\xfe\xbb\x11\xa1\x9c\x17\x38\x27\x81\xff\x69\xde\xe1\xd0\x00\xd1\xb8\x84\x49\x33\x7b\x7b\x81\x0f\xdf\x91\x99\x23\x5d\x89\x6d\x28\x9a\x6e\xb3\x38\xb2\xda\x01\x70\x53\xba\x32\x7c\x81\xc9\x32\x2c\x0c\x57\xe8\xee\x40\x51\x16\xe7\x28\x57\xce\x91\xc7\x81\xd1\x08\x81\x53\xd5\x97\xa0\x52\x27\xf1\x0b\xfe\x10\x3f\x98\x73\xa1\x69\xa4\x75\xa8\xbf\x77\xdb\x87\xb0\x0e\x03\x3d\x0a\x7f\xa3\x7e\xf9\x1d\xae\x72\x41\x0a\xf4\x77\xa4\xce\x91\xef\x34\x8a\x29\x21\x67\x02\x2f\x9c\x2c\xb8\xd3\x86\x5a\x91\x7a\xcc\x6d\xc3\x0c\x09\x42\xdf\x0d\xb1\x17\x64\x8e\x69\x00\x4f\x4d\xf1\xca\x5b\xd4\xa1\xaa\xd1\xc2\x4b\x0d\x76\x29\x5c\x29\x0c\xac\xee\x05\xf0\xdb\x03\x9c\x4b\x6e\x65\x24\x5e\xb4\x40\x13\x4f\xe7\xc5\x09\x74\x1b\xed\x16\x69\xbb\xc2\xc0\xec\xf6\x58\xe1\x43\x3a\x3b\x1d\x10\x84\x54\xd8\xc9\xd6\x6f\x67\x18\x0e\xfa\x24\x5e\x62\xeb\x80\x53\xe2\x92\x12\x7b\xad\xff\x76\x90\xab\xb1\xef\x2f\xc7\xe8\x02\xad\xb9\x22\x84\x73\x50\xf9\x9d\x93\xad\xf1\xe3\x57\xbb\xce\x0d\xab\x79\xa1\x28\x26\x74\x72\xaa\xdb\xd7\xd0\x1c\x21\x56\xf6\xa9\x86\x8c\x12\x7c\x28\xdb\x1f\x78\x29\x8a\xbd\xdb\xea\x8d\x79\xe1\x8c\x0c\x8c\x1e\x32\x1c\xef\x06\x19\x9f\xf1\x1a\xea\x14\xb5\x76\x7a\x85\x69\x51\x54\x40\x5a\x63\x60\x2c\xdc\x86\xbf\x5b\x7b\x25\xc8\xa8\xb9\xd1\x09\xc2\x03\xef\xea\x7a\xd4\xf5\xff\x8a\xb3\xec\x49\x9e\xc7\x06\xf8\x71\x9d\x91\xf6\x2a\xc0\x0c\x0d\xde\x08\x22\xd2\x04\x35\x1a\x5b\xeb\xf0\xe0\xce\x2c\x39\x23\xd2\xd4\x5b\x8a\xe8\x4b\xbd\xb7\xa0\xb1\x4a\x0d\x43\xa3\x8b\x4b\x70\x57\x5f\x5a\x75\x47\x7e\x9e\x1e\x1e\x3c\xc9\xf3\xf2\xe1\x86\xd5\x4a\xb0\x1c\xb3\x6a\xaa\x6e\xc8\x29\x7c\x26\xe4\x94\xd5\xd9\x9b\x42\x5f\x53\xba\x68\xdf\xd8\x96\x11\xdc\xfa\x25\xf8\x0b\xee\xa8\x54\xac\x64\xee\x28\xd5\x7e\xb5\x3a\xac\x58\x7b\x55\x2b\xa1\xd1\x21\xa6\x3b\xb0\xeb\x1e\xb2\x12\xf5\x3e\x4a\xe7\x1a\x82\x04\x9e\x41\x7c\xca\x32\x12\x07\x7a\x87\x08\xb4\x68\xb9\x68\x1d\x23\xca\x1b\x56\xb3\xa5\xb4\xe1\xca\x6f\x59\x2d\xe3\x1a\x79\x88\x57\x41\xda\xf7\x18\xdb\x7f\x68\x78\xbd\x6a\x87\xd7\xe9\x9b\x57\xdf\xa7\xbf\xc1\x87\xb1\x9d\xe0\x0d\x09\xfd\x18\xc6\x74\xc3\x5e\x5c\xb6\x52\xab\x6f\x6d\x50\x00\xa3\x7b\x6c\x0a\x3b\x2c\xfd\xbe\x34\x8e\x35\x44\x7a\x93\x66\x0c\xe6\x59\x35\x94\xf4\x1b\x5e\xe8\x45\x1d\x37\x31\xba\xe9\x4f\xef\xee\x47\xe1\x65\xc1\xcb\xd9\x0e\x1e\xfc\xc3\x2e\x1e\x7a\x5b\x3f\x05\x11\x77\xac\x3e\xaf\xf9\x87\xb6\x3c\x4e\x41\x8b\xce\x24\xdb\xa1\x6d\x66\xb0\x27\x20\xea\xd5\x98\x43\x85\x51\xa3\x1f\xa5\x8d\x0e\x9c\x5d\x67\x52\xeb\xcf\xed\x68\xc0\xc4\x46\xf5\x09\x45\xcf\x1e\x04\xfb\x74\x5f\xaf\x6f\x3d\x54\x07\x75\x2e\xd2\x90\xa2\x78\xbe\xa3\x26\xb6\x95\x84\xd3\x05\x6f\x24\xbf\x41\x05\x83\xfa\x52\xfa\xea\xe3\x8d\xe4\xd7\x45\xb3\x7c\xd1\x2c\x27\xbc\x96\x17\xed\x8b\xeb\xa5\x50\x6f\x8a\xaa\xac\x1a\x0c\x89\x33\xa7\x56\x36\x61\x47\x9f\xb6\xb8\x59\x74\x5c\x7f\x7b\x1a\x6b\x54\xd3\xe7\x5c\x4a\x36\xe7\xc9\xbe\x56\x09\x2b\x06\xef\x47\xa4\xad\x9c\x3b\xa9\x3d\x29\x6f\x94\x5f\xb7\x75\xed\x90\x92\x9c\x81\xbe\x1c\x4a\x7f\x1e\x71\xc7\x0a\x0d\x15\x70\x5b\xdf\xdd\xba\xe2\x5a\xd9\xed\x2b\xd9\x22\xe0\xdd\x72\xed\x82\x49\x58\xb0\xcc\xcc\x1d\x2a\xd0\xea\xb2\x60\x86\x5d\x9f\x02\xb3\xc2\xad\x7c\xfb\xf7\x85\xd5\x82\x1b\x28\xc6\x91\x92\xa9\x35\xfa\xae\x2e\x8c\xc2\x8c\xd9\x56\x97\x56\xb4\xe8\x50\x10\x8a\xd1\xb8\x2c\x0d\x90\x6e\x15\x78\x6f\xfd\x77\x6f\x55\xf7\x6e\xe4\x28\xe4\x45\x2a\x7b\xa7\x6c\xe1\xaf\x0b\xc0\xbb\x30\x50\x79\x21\xb9\x9b\x82\xb7\xf7\xb2\xa6\x0b\xd4\x65\xa9\x7e\xc3\x72\x59\x02\xcb\x32\x3a\xc3\x5a\xdb\x43\x53\xe7\xe1\xfe\x32\x74\x44\x43\xcf\xf1\xf6\xf2\x88\x94\xf8\x0d\x53\x8b\xe4\xd0\x44\xc7\x15\xec\xe6\x47\x99\x43\x25\x12\x25\x1f\x5d\xaf\x46\x10\x54\x34\xb1\xcf\x4e\xa8\x57\x7b\xb3\xdb\x14\x6b\x4f\xb9\xba\x00\x1c\x49\xda\x0b\x72\x71\x8f\x5e\x2b\x53\x44\xb5\x65\xa9\x74\x7e\x01\xd3\x07\xac\xc0\xcb\x5f\x3f\x60\x27\x7f\x65\xae\x99\x99\x67\xa8\x27\xa7\xe5\x92\x9b\xdb\x0f\xed\x22\x99\x90\x53\xbc\xbc\xbf\x02\xb9\x92\x8a\x2f\x47\x20\x75\x7b\x79\x2e\xee\x78\xbe\xb2\x42\x87\x62\x04\xd1\xa2\x94\xea\x02\x25\x3a\x22\x05\xda\xd9\x41\xec\x96\xb2\x1d\xca\x83\x99\xdb\xd3\xab\xd9\x62\x06\x9f\x58\x91\xfb\x96\xc9\x9b\x9a\xcf\xc4\xa3\x5b\x71\x04\x11\x9e\xca\xc8\x44\xe4\x0e\x8f\x4b\xf3\xf8\x62\x3c\x8e\xe0\xbf\x38\x4a\xa0\x54\x06\x8d\xd3\x82\x4d\x9d\xa7\x37\xe8\x9d\x38\x68\x47\xf7\x85\xa1\x73\xd1\x84\x74\xfd\x17\x23\xcb\x9e\x88\x83\xea\xab\xe6\x9e\x44\xf4\xa2\x34\x8c\xf4\xd2\xdb\xa6\x63\x5f\x13\xc4\x24\x83\x10\xd0\x43\x59\xdf\x8d\xc0\xa4\xcc\x81\x2c\x3d\x06\x7e\x78\x91\xaf\x36\xfe\xa6\x79\x2b\x90\x84\x51\x9b\xb6\xc5\x86\xb3\xe0\xf8\x58\x28\x58\xaf\x41\xcc\x76\x82\x1f\x42\x1a\xdf\xea\x0c\xa0\x75\x36\x10\x92\x28\x32\xfe\xb8\x3b\xe3\x4b\x3b\x87\x3a\x02\xb6\xa3\x8a\x7d\x0d\x01\xe8\x6c\xe8\xff\x0d\xf6\xcc\xeb\xb9\x12\xec\x75\x05\x50\x27\xfa\x60\xda\x98\x3c\xc8\x60\x5a\x56\xab\x37\xaf\xbe\x8f\x9b\x11\xf8\xe3\x9f\x32\xc9\x51\x7d\x60\xfa\xd8\x0e\x6d\xbd\x83\x5d\xac\xba\x7e\x69\x37\x47\x4c\x94\xe9\x69\x00\xd8\xa9\xee\x07\xdb\x05\x7e\xeb\xdb\xb6\xdc\xec\xfc\xdd\xfe\xe9\xd4\x55\x6f\xa5\x7f\x2f\xdf\xe1\xfc\xaf\xc5\xf9\xa1\x44\x3a\x75\x12\x6c\x13\xd1\xbe\xa6\xe6\x88\xbd\xfb\xf5\x3a\x0c\xb4\xe6\xb1\x7c\x9c\x30\xc9\xe1\x0c\xcf\xf0\x9b\x57\xdf\x8f\x74\x71\x89\x4c\x6b\xe2\x1e\xe3\xf9\x2d\xd0\x2f\xb8\xb8\x84\x33\x9c\x60\x7e\xea\x42\x02\x85\x07\x8e\x9c\x9f\xe3\x1b\x4a\x30\x5c\xa9\x47\x5b\x1a\x7d\x8d\xfe\xed\x54\xf7\xce\x37\x35\xa5\x6a\x50\x1c\xed\xc1\x55\x25\x54\x4d\x9e\xeb\xe7\x64\xe7\x78\x86\x1e\x86\x84\xb2\x41\xd3\x6d\xdd\x57\x32\x4b\x3a\xbd\x43\x66\x6f\x69\x5d\x58\x3f\x00\x45\x5f\x81\xd2\x1d\x29\xc0\x8b\x52\xd1\xbd\x5f\x04\x89\xb0\xb4\xa6\x58\xb0\x7b\x0e\xf6\x7b\x1e\xfb\x5d\x12\xbd\xce\x44\x57\xab\xe8\xea\x9b\xbe\xe5\x83\x9a\xdf\xa2\x86\xb7\xa8\x29\xbf\xcf\x6c\x13\x94\xf6\x3d\x70\x57\x2b\x97\xa8\x76\xa5\x3d\xff\x62\x1e\xaf\x9d\xc1\xa5\xd2\x72\x97\x76\xa6\x9c\xec\x5d\x41\x19\xb6\x07\x7e\xc6\xa7\x67\x10\x55\xdc\xf6\x5c\xdc\x3c\xc2\x3b\xfc\xd9\x0a\xca\xce\xe3\xa1\xcc\xaf\x5f\x47\x76\x36\xc3\xd4\x7d\x13\x94\x2a\xa4\x35\x6a\x94\xa1\xf6\x98\x83\x0a\x7b\x3b\x25\xd5\xab\x6c\xf6\x66\xa4\xb6\xe3\x2b\x4a\x47\x19\x6f\x6c\x3b\x25\x65\xb3\x34\xb4\x8c\x9d\x6d\xd2\x33\x6d\xec\xb3\x9d\x92\xa2\xc7\x18\xf8\x1a\x37\x8f\xaa\x24\xee\x0d\x3a\xd4\x4c\xa7\x03\xfe\xeb\x97\x5f\xfa\xe5\xa2\x11\x3c\x50\x4d\x44\x27\x3c\xab\x9a\xa3\x93\xc3\xf4\x79\x60\x85\x86\xa5\x9d\x02\x2d\xa8\x4c\x29\xfc\x32\x03\x9e\x1f\xb3\x0b\xff\xfc\x51\x02\x1b\x96\x26\x84\x69\x71\xb4\x48\x1c\x4c\x99\xd9\xf6\x90\x9e\x94\x59\x2f\xd9\xf7\x67\xcc\xcc\xa2\xa7\xa7\xcc\x4e\xc9\x80\x5d\xe2\x90\xf4\xfa\xe5\xd7\x83\x49\x30\xcc\x62\xb7\xb9\x71\x14\x0c\x4d\x02\x40\x3a\xae\xfc\xac\xd7\x96\xfb\xd3\x07\x0b\x13\x6a\x3d\xf9\x34\x07\x94\xc0\x19\x78\xb5\x57\x8b\x80\x4f\x3a\x85\x8f\x97\xbf\xde\xbb\xc4\x2c\xde\xae\x44\x24\x23\x88\x3c\x99\xb9\x80\x2f\x3e\xcb\xbe\x88\x46\x9d\x35\xdc\xda\xe8\x8e\xe0\x86\x0f\x49\x73\x78\x72\x5e\x6f\x30\xad\x37\x94\xd5\xdb\x84\xc7\xe7\xf4\x64\x95\x7c\x75\x98\x09\x3e\x51\xec\x86\x69\xd0\xe7\x6d\xdf\x74\xd0\xcd\xcb\xf8\x0a\xe8\xba\x38\x51\x01\xb9\x91\x9e\x63\xb0\xe3\x12\x9c\x93\xaa\x3a\xc2\x85\xda\x9b\x0b\x72\xd9\xf3\xd0\x45\xbb\x94\x0e\x02\x76\x7c\xc2\x5c\x7f\xa3\x02\x4f\xfe\x3d\xab\x45\xd9\x48\x40\x73\x82\x5e\x18\xda\xe5\x60\x3c\xde\x35\xbe\x31\xfa\x11\x23\xd0\x09\x33\x53\xd3\xc6\x43\x92\x58\x55\x70\xc4\xb6\xf6\xeb\x02\x3d\x64\xa0\x85\xcc\xa5\x8e\xf0\x43\x53\xf7\x2c\x47\x5e\x44\x11\x65\x26\xcd\xa3\xfd\xdf\x18\xd8\x22\x06\xad\x66\x84\xdc\x66\x38\x6b\xfe\x21\x0c\xb7\xcc\xd7\x60\x68\xbc\x3d\x6e\x38\xf6\x36\x59\x89\xd7\x5a\x67\xe3\x45\x7c\xb5\xc0\xc4\x2f\x5b\x72\x85\x65\x1b\xbc\x2d\xae\x16\x88\xb6\x8d\xe4\x74\x0f\x95\x2d\x2a\x6d\x5d\xa5\x94\x5c\xa7\x87\x3a\xb9\x4e\x5c\xe5\xb5\x79\xee\x92\x9d\x76\xe0\x66\xfb\xe6\x29\xba\x8c\xd1\x58\xe3\xdf\x17\xed\x21\x2e\xfb\x8b\x07\xdb\x3a\x08\xf5\x5c\xd9\xe4\x59\xf1\x85\x6a\x4f\xaf\xd9\xe5\x67\x1f\x22\xe3\x7c\x5a\x0d\x6a\xa8\xf2\x8a\x3d\x90\x93\xd9\xd8\xbf\xdd\x3b\xf7\x02\xff\xd8\xa2\x9c\x16\xbc\x2e\xe9\x74\xc3\x45\x6f\xc6\x1a\x15\x9c\x5a\x56\x54\x9e\x25\x06\xab\x65\xd5\x25\xe7\x50\xee\x1a\x2c\x1d\xcf\xe1\xb8\xb4\xb1\x98\xe9\x03\x41\xc3\x5e\xf1\x8a\x63\x8e\xd1\x4e\xfb\x4e\x3e\x65\x9e\x46\x6d\x21\xc7\x57\xf6\x4b\x7d\x34\xf2\x9b\x12\x47\x41\x64\xd9\x1f\x25\x76\x86\xd9\xea\xdb\xc8\xa5\xa8\x7f\xe3\xf2\xf1\xd4\x91\xfd\xce\x88\x70\xea\x46\x5c\xb1\x25\xcf\xdb\xde\x75\x92\x83\x5c\xba\xdf\xe4\xf0\x79\x17\x3a\x86\xe6\xdb\x7a\x08\xa1\x91\x3e\xc9\xb2\x78\x0f\x2a\x23\xef\xf3\x56\xf1\x3d\xe6\xbc\xda\xba\x49\x47\x1a\xfb\x88\x6c\x69\x40\x14\xb0\xe3\xa8\x48\x33\x84\x61\x02\x97\x97\xf0\x0b\x87\xe7\x78\x8c\x97\xae\xcc\x07\x82\xa8\xe4\xac\xc5\x14\x26\x1c\xf0\x23\x47\x05\x3a\xf1\xda\xb1\xa3\x09\x6a\x49\x77\xe5\xb6\x7a\x41\x06\xd7\xa3\x79\x3d\x27\x25\xe8\x3d\x2d\x74\x58\x66\x4c\xe4\xa6\x5d\xc7\x9e\x95\xa1\x15\x22\x22\x5b\xb0\xe9\xd2\x1e\xbd\xea\xbd\xb4\x37\xfb\x8d\xd5\xb2\xda\x4b\xf9\xf5\x9a\xe7\x98\xa2\x9f\x41\x59\x43\x8c\x9e\xca\x8e\xb8\x26\xdb\x12\x6d\x99\x81\x3c\x1c\x9f\xe1\x35\x92\xa6\xc0\x3e\x47\xeb\x4f\x96\x35\xe5\xb7\xf4\x17\x26\x9b\x25\x1a\x32\x84\x2c\xd1\xac\x9e\x8d\x5d\x50\xbc\x73\x64\x5e\x2b\x56\x5f\x3f\x56\x5d\x44\xec\xaa\xee\x10\x88\xd9\x20\xb5\xb6\x38\xb0\x25\x64\x1f\xc9\xdd\x7e\xe6\xfe\x8c\xbc\x25\xf4\xc8\xa8\x59\x1b\xa0\x59\x17\x9e\x74\xde\x0c\x84\xe4\xa7\x10\x77\xd3\x47\x39\x23\x24\x76\xc8\x7a\x3d\x3e\xfb\xf3\x3f\xfc\xef\x1f\xff\xf4\x77\x3f\xfe\xed\x3f\xfe\xf8\xff\xfe\xf8\x97\xbf\xf9\x3f\xff\xf2\x4f\xff\xfc\xe7\x3f\xfd\xdf\x1f\xff\xfe\x8f\x7f\xf9\xe3\xff\xdf\x61\xf0\xd6\xfa\xc7\xb1\xd1\x27\xf5\x47\xa8\x9b\xb3\x21\xd0\x3b\x87\xc1\xdf\xd9\x47\x2c\x74\x68\x9d\x36\x79\xe3\x88\xea\xd9\x15\xf7\x8b\x7e\x6c\x36\x5d\xd3\x54\x62\x05\x73\xa8\xa6\xb9\x6b\x9f\xf4\xf0\x61\xfb\xd4\x82\xad\x9c\xff\x60\xa6\x90\xef\x0e\x1d\xbe\x39\x85\x60\x0e\x73\x57\x23\xd0\x33\x2b\x3f\x76\x62\xe7\x83\x15\x44\x1b\x1a\xea\x11\x47\x77\xf9\x5b\x10\xd4\x23\x44\x5e\x98\x97\x41\x38\x70\x62\xbf\xe1\xaa\x05\x42\xb7\xaa\x2d\xd5\x07\x35\xf2\xa9\xc7\xb6\x77\x11\xa7\x93\xad\x14\xed\x3b\xbb\x3b\x52\x45\xc0\x0e\x1d\xdf\x7e\x09\xfd\x99\xe9\x7b\x34\x6a\x5b\x12\xdf\x4f\xfb\x1d\xcc\x7d\x71\xdf\xfa\xd9\xf9\x45\x3f\x74\x86\xbe\xf5\x0f\x35\x1a\x70\x09\x84\xa4\x09\x2d\x62\xed\x4a\x93\xcc\x17\x9e\x4f\xaf\xf3\xda\xd1\x9c\x2b\xf3\xa1\x4e\xdf\x67\xc4\x08\xa5\xeb\x32\xaa\xf2\x15\x57\x1f\x1b\x25\x1c\xe3\x3a\x9e\x1f\x68\x38\xe8\x36\x3e\x8c\xcf\xe0\x65\x91\xaf\xf4\x47\xbf\x10\x61\x3d\x5a\x52\xe1\x53\x2e\xac\xcb\x42\x59\x45\x9c\x8b\xb5\x28\xbc\x27\xab\x29\x5b\xaa\x85\xdf\x0c\x5c\x2e\x85\x42\xbf\x33\x6b\xf4\x97\x89\x30\x7f\x21\x0a\x2e\x25\x9c\x8d\x69\x45\xbd\xfd\x5e\xb5\x75\xc0\x7b\x6c\xb5\x59\x87\x7f\x74\x62\xb6\x53\x03\xcf\x0f\x27\x06\xda\xcc\xc0\x60\x2d\x7f\xb8\x98\x3f\x58\xcd\xd7\x67\x07\xef\xd2\xb8\xe0\xc6\x61\xe8\xab\x90\x8f\x8f\x71\x4c\xa8\xad\x53\x39\x98\x7e\x43\xdd\x04\x9f\xdd\x47\x23\xd0\x94\x6d\x23\x9d\xa7\x38\xc0\x25\xa7\xdc\x47\x59\x63\xec\x16\x95\x78\x75\xe0\x69\x33\x9b\xf1\x3a\x46\x5c\xfd\x86\x77\xf0\x5b\x4a\x28\x4f\x11\xec\x7e\xa9\xee\xe0\xb7\x6b\xdc\x87\x6b\x8f\xad\xd9\xbe\x78\x72\xfb\x9a\xba\x07\xed\xb3\xc3\xff\xc6\x6d\xd3\x21\xce\x07\x93\xe7\x76\xbf\xe9\x46\x2f\xe2\x82\x88\x16\x23\x90\xf5\xbd\xf9\xed\x3e\x44\x48\x91\xfd\xee\x37\x10\x8f\xbd\x6c\xdb\x77\x6d\xf6\x75\x33\x71\x02\x80\x38\xa0\x29\x6f\xf8\xeb\x66\x22\xa7\xb5\x98\x98\xcf\x06\x6d\xdd\x7a\xdd\x6c\xfc\xaf\xb2\x60\xb4\xdf\x37\x06\x75\x75\x7d\xef\x8f\xd4\x40\xf8\x73\x39\xd7\x9b\x4d\x0e\x4a\x16\x49\x08\x26\x1c\xfa\x11\xf7\x6e\x90\x7a\x62\xb0\x5e\x77\xbe\x6c\xc2\xee\xb8\xc7\xb0\x63\xbf\x16\x84\x53\x8e\xf8\x5a\x50\x0b\xf9\xe0\xe5\xa3\xce\x57\x91\x53\x47\x60\xba\xd2\x91\xf8\xbc\x1e\xf8\x4a\xd0\x7e\x08\xd4\x9a\xf2\xef\xef\x63\x41\xed\xbe\x0e\xde\x26\x26\x21\x75\x3c\xbe\x80\xee\x9e\xf1\x0e\x8e\xdb\xf6\x49\x1f\x0a\x42\x46\x79\x23\xc8\x5e\x8d\xe8\xcb\x07\xd7\x45\xef\x18\xaf\xf6\xda\x8e\xd8\xea\xf5\x3a\xf5\x4b\x42\x1e\x97\xbd\xeb\x1e\xa7\x7f\x49\xc8\x83\xe3\x1a\xc7\x0f\x13\xd7\xdb\x1e\x00\x9c\x75\xa9\xdb\x92\x76\xe7\xfb\x40\xb4\xd2\x76\xbd\x69\x68\x1d\xaf\xe2\x81\x24\x5b\xaf\xbb\x64\xef\xaf\xbc\x2d\xe5\x9c\x14\xe0\x73\x39\x1f\x2e\x74\xec\xf6\x00\xf7\x5d\x81\xdd\x73\x93\x60\x29\xe7\xe9\x33\x6d\xf7\xfa\x7b\x5f\xfb\x5a\x35\xac\x2c\x0f\xdc\xa7\x25\xf2\x50\x36\xbc\x6d\x5e\xec\x91\x97\xed\x84\xb5\xde\xf0\x11\xcd\x8b\x98\x80\x81\x72\xf2\x7b\x6c\xca\xa1\x7c\xb4\x74\xfc\xb2\x5f\x6a\x79\xce\x8a\x95\x4e\xd5\x9c\x63\x65\xd6\x36\xe9\x98\x2f\x3a\x36\x98\xc1\xc0\x42\x18\xa2\x87\x0a\xb0\x90\x02\xcb\xb0\x74\xc3\x8b\x94\xda\x20\xde\x03\xd5\x52\x5c\x97\xfc\xf9\x11\x14\xd3\x8e\x05\x73\x75\xa2\xfe\x04\xb5\xa5\x73\x47\x06\xcd\xfa\xb8\x05\x7f\x61\x5a\x08\x57\x68\xc1\x26\xa7\xf4\x59\xe1\x8e\xa8\x66\x61\x9f\x9d\xd0\x67\xe5\xcd\x3e\xf0\x5d\x10\xdc\xfe\xbf\xf5\x77\x41\x5a\xec\x76\xbd\x88\x41\x03\x74\xd3\x4c\x72\x21\x17\xbc\x3e\xa5\x8d\x6a\xf8\xa3\x20\xbe\x42\xf0\x7d\x01\x4f\xf7\xd8\xd6\x9e\x1d\x4b\xbe\xbf\xb7\x67\x4d\xfe\xff\xf0\xb4\xcb\x2d\x19\x7a\xc1\x1f\xdc\xee\xa8\xbb\xc7\x7d\xf5\x23\x08\x7a\x9d\x15\xdf\x7a\x44\x34\xb0\xe7\x28\xf8\x5d\x3b\xcf\xf8\x21\x9b\xb1\xdb\xae\xb3\xdd\xad\xd3\xe9\x8e\x76\x0a\xc5\x9e\x8c\xde\xde\x9c\x5e\x95\x4b\xa1\x94\x87\xc8\x56\xef\xcc\xe9\x5f\xe1\xc0\x8d\x0d\xb5\x19\x0c\xa9\x7d\xd7\x5d\x30\x40\x95\x5e\xdd\x77\xdc\x57\x38\xac\x5d\xf8\xab\x7d\x6f\x63\x00\xe5\x23\x4c\x15\x0c\xdb\x2a\x6c\xaa\x3c\xc2\x0c\xf1\xba\xb6\xeb\xed\x98\xa3\xf1\x18\x76\x2d\xd2\x78\x0c\x1b\x0f\xba\x9d\x9c\xea\x9b\x15\x76\xf2\xe7\x9f\xef\xbe\x4b\xb1\xb6\x8d\xf9\xff\xe8\xbd\xa0\xfb\x82\xef\xa3\x81\x65\x6c\xbd\x7f\x17\x88\x6d\xeb\xb6\x88\xf4\xd4\xc8\x7b\xbf\x22\x72\xac\x51\xee\x2b\x5e\xef\xb7\xca\xfd\x9f\xf8\xf2\x65\x98\x6c\x73\xbf\x69\xa6\x3a\xea\x1e\xcb\xdc\xbd\x88\xe5\xfe\x5f\x2d\x51\x2f\x17\x65\x48\x74\xe8\x30\x60\xac\x91\xd5\x56\xd3\x3f\x97\xf3\x6d\x5b\x7d\xae\x71\xfd\x79\x0c\xf6\xb1\x3e\xd6\xa1\x0a\xb2\x25\xf9\xa0\x81\x76\x0b\xe9\x13\xe1\xc0\x25\x1e\x1b\xfe\x75\x00\xb2\xdc\xe2\x5a\x1a\x6c\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27622, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x54, 0x8c, 0x59, 0xed, 0x5e, 0xda, 0x5, 0x70, 0x5f, 0x93, 0xa8, 0x85, 0x61, 0x98, 0x20, 0x26, 0x47, 0xf9, 0x32, 0x99, 0x6c, 0xcf, 0x45, 0xa6, 0x81, 0x99, 0x56, 0x55, 0x62, 0x68, 0xc8, 0x36}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27674, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x4e, 0x7f, 0xe2, 0xee, 0x17, 0x8b, 0xaf, 0x7d, 0xdc, 0x35, 0x2c, 0xe, 0x28, 0xe0, 0x37, 0x41, 0x82, 0x92, 0x79, 0x41, 0x5, 0xc9, 0x46, 0x67, 0x4d, 0x53, 0xe8, 0xe5, 0xf7, 0x59, 0xe5, 0x2f}}
 	return a, nil
 }
 
diff --git a/svcdef/svcdef.go b/svcdef/svcdef.go
index d875d4f..c988bf2 100644
--- a/svcdef/svcdef.go
+++ b/svcdef/svcdef.go
@@ -24,6 +24,7 @@ import (
 	"io"
 	"reflect"
 	"sort"
+	"strconv"
 	"strings"
 
 	"github.com/kr/pretty"
@@ -65,12 +66,18 @@ type Map struct {
 }
 
 type Service struct {
-	Name    string
-	Methods []*ServiceMethod
+	Name string
+	// GRPCName is the full name the gRPC code registers the service under, for
+	// example "acme.users.v1.Users"; empty if it is not known.
+	GRPCName string
+	Methods  []*ServiceMethod
 }
 
 type ServiceMethod struct {
-	Name         string
+	Name string
+	// GRPCName is the name the gRPC code registers the method under, for
+	// example "find_one" for the method FindOne; empty if it is not known.
+	GRPCName     string
 	RequestType  *FieldType
 	ResponseType *FieldType
 	// Bindings contains information for mapping http paths and paramters onto
@@ -266,6 +273,7 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 						log.Tracef("\t\t%v.%v.Bindings[%v] = %v\n", nsvc.Name, m.Name, i, b.Verb+"."+b.Path)
 					}
 				}
+				setGRPCNames(nsvc, fileAst)
 				rv.Service = nsvc
 			}
 		}
@@ -456,6 +464,88 @@ func NewService(s *ast.TypeSpec, info *DebugInfo) (*Service, error) {
 	return rv, nil
 }
 
+// setGRPCNames finds the names a service and its methods are registered under in
+// the service descriptor:
+//
+//     grpc.ServiceDesc{
+//     	ServiceName: "acme.users.v1.Users",
+//     	HandlerType: (*UsersServer)(nil),
+//     	Methods: []grpc.MethodDesc{
+//     		{
+//     			MethodName: "find_one",
+//     			Handler:    _Users_FindOne_Handler,
+//     		},
+//
+func setGRPCNames(svc *Service, file *ast.File) {
+	ast.Inspect(file, func(n ast.Node) bool {
+		desc, ok := n.(*ast.CompositeLit)
+		if !ok {
+			return true
+		}
+		sel, ok := desc.Type.(*ast.SelectorExpr)
+		if !ok || sel.Sel.Name != "ServiceDesc" {
+			return true
+		}
+		handler, _ := literalKey(desc, "HandlerType").(*ast.CallExpr)
+		if handler == nil {
+			return false
+		}
+		name := ""
+		ast.Inspect(handler.Fun, func(n ast.Node) bool {
+			if id, ok := n.(*ast.Ident); ok {
+				name = id.Name
+			}
+			return true
+		})
+		if name != svc.Name+"Server" {
+			return false
+		}
+		svc.GRPCName = stringLiteral(literalKey(desc, "ServiceName"))
+		methods, _ := literalKey(desc, "Methods").(*ast.CompositeLit)
+		if methods == nil {
+			return false
+		}
+		for _, e := range methods.Elts {
+			desc, ok := e.(*ast.CompositeLit)
+			if !ok {
+				continue
+			}
+			fn, ok := literalKey(desc, "Handler").(*ast.Ident)
+			if !ok {
+				continue
+			}
+			for _, m := range svc.Methods {
+				if fn.Name == "_"+svc.Name+"_"+m.Name+"_Handler" {
+					m.GRPCName = stringLiteral(literalKey(desc, "MethodName"))
+				}
+			}
+		}
+		return false
+	})
+}
+
+// literalKey returns the value of a key of a composite literal, or nil.
+func literalKey(lit *ast.CompositeLit, name string) ast.Expr {
+	for _, e := range lit.Elts {
+		if kv, ok := e.(*ast.KeyValueExpr); ok {
+			if id, ok := kv.Key.(*ast.Ident); ok && id.Name == name {
+				return kv.Value
+			}
+		}
+	}
+	return nil
+}
+
+// stringLiteral returns the value of a string literal, or an empty string.
+func stringLiteral(e ast.Expr) string {
+	if lit, ok := e.(*ast.BasicLit); ok && lit.Kind == token.STRING {
+		if s, err := strconv.Unquote(lit.Value); err == nil {
+			return s
+		}
+	}
+	return ""
+}
+
 // NewServiceMethod returns a new ServiceMethod derived from a method of a
 // Service interface. This is accepted in the form of an *ast.Field which
 // contains the name of the method.
-- 
2.43.0


From 155ebcedb926af45942981ea6f87394ace645b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:32 +0000
Subject: [PATCH 19/45] fix: an error of a NATS handler is not taken for a
 response

---
 .../NAME-service/baron/NAME.pb.baron.go.tmpl  | 35 +++++++++++++++----
 gengokit/template/template.go                 |  8 ++---
 2 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index b13faf9..a31b64b 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -752,6 +752,7 @@ func ServeNATS(conn *nats.Conn, srv *natsServer) error {
 func MakeNATSServer(endpoints Endpoints, options ...natstransport.SubscriberOption) *natsServer {
 	serverOptions := []natstransport.SubscriberOption{
 		// grpctransport.ServerBefore(GRPCMetadataToContext),
+		natstransport.SubscriberErrorEncoder(natsErrorEncoder),
 	}
 	serverOptions = append(serverOptions, options...)
 	// {{ ToLower .Service.Name }}
@@ -795,6 +796,31 @@ func EncodeNATSGenericResponse(ctx context.Context, reply string, nc *nats.Conn,
 	return natstransport.EncodeJSONResponse(ctx, reply, nc, response)
 }
 
+// natsError is what is sent instead of a response when a call fails. No message
+// has a field which is called "@error".
+type natsError struct {
+	Failed bool   `json:"@error"`
+	Error  string `json:"err"`
+}
+
+func natsErrorEncoder(_ context.Context, err error, reply string, nc *nats.Conn) {
+	b, err := json.Marshal(natsError{true, err.Error()})
+	if err != nil {
+		return
+	}
+	_ = nc.Publish(reply, b)
+}
+
+// natsErrorDecoder returns the error a reply carries, if it is not a response.
+func natsErrorDecoder(data []byte) error {
+	var e natsError
+	_ = json.Unmarshal(data, &e)
+	if !e.Failed {
+		return nil
+	}
+	return errors.New(e.Error)
+}
+
 /************************************** NATSClient ******************************************/
 
 // NewNATSClient returns an service backed by a nats client connection. It is the
@@ -827,12 +853,9 @@ func NewNATSClient(conn *nats.Conn, options ...natstransport.PublisherOption) ({
 // DecodeNATS{{$i.Name}}Response is a transport/nats.DecodeResponseFunc that converts a
 // nats.Msg to a user-domain {{ToLower $i.Name}} response. Primarily useful in a client.
 func DecodeNATS{{$i.Name}}Response(ctx context.Context, msg *nats.Msg ) (interface{}, error) {
-	// if err := json.Unmarshal(msg.Data, &errResponse); err != nil {
-	// 	return nil, err
-	// }
-	// if errResponse.Error != nil && errResponse.Error.Code == "_internal_" {
-	// 	return nil, errors.New(errResponse.Error.Message)
-	// }
+	if err := natsErrorDecoder(msg.Data); err != nil {
+		return nil, err
+	}
 	var resp {{GoName $i.ResponseType.Name}}
 	if err := json.Unmarshal(msg.Data, &resp); err != nil {
 		return nil, err
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index 2c726ce..16c48c1 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -1,6 +1,6 @@
 // Code generated by go-bindata. DO NOT EDIT.
 // sources:
-// NAME-service/baron/NAME.pb.baron.go.tmpl (27.674kB)
+// NAME-service/baron/NAME.pb.baron.go.tmpl (28.210kB)
 // NAME-service/cmd/NAME/main.go.tmpl (1.381kB)
 // NAME-service/cmd/NAME-client/main.go.tmpl (2.923kB)
 // NAME-service/server/endpoints.go.tmpl (230B)
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x4d\x8f\xe4\x38\x76\xe0\x59\xfa\x15\xaf\x85\xfe\x90\x72\x23\x15\x3d\x0b\xec\x62\x36\x1b\xb9\x40\x55\x56\xf6\xc7\x4c\x57\x55\x4e\x55\xd6\xf4\xa1\x50\xa8\x61\x84\x18\x11\x9c\x54\x48\x2a\x91\xca\xcc\x98\xd8\xb8\xec\x65\x16\xd8\x05\x16\xf0\xc9\x07\x63\xe0\x93\xaf\x86\xcf\xfe\x3d\xd3\xc6\xfc\x0b\xe3\x91\x8f\x14\x15\x21\xc5\x47\x75\x8f\x61\x18\x2e\xc0\xd3\x19\x12\xf9\xf8\xf8\xde\xe3\xfb\xa6\x3c\x1e\xc3\x55\x99\x71\x98\xf3\x82\xd7\x4c\xf1\x0c\x26\x2b\x98\xb0\xba\x2c\x52\x78\xf6\x12\x5e\xbc\xbc\x85\xeb\x67\xdf\xdd\xa6\xe1\x78\x0c\xaf\x78\xdd\x14\x85\x28\xe6\x66\x00\x3c\x88\x3c\x87\xf2\x9e\xd7\x0f\xb5\x50\x1c\xd4\x42\x48\x98\x89\x9c\xeb\xc1\xbf\xe5\xb5\x14\x65\x71\x01\xeb\x75\x4a\x7f\x6f\x36\xde\x0b\x78\xc6\x14\xf7\xdf\xe2\xef\xcd\x26\x0c\x2b\x36\xbd\x63\x73\x8e\x6f\x6e\xcc\x9f\x2f\xd8\x52\xbf\x19\x8f\xe1\xd6\xae\x01\xd3\xb2\x50\x4c\x14\x12\x96\x5c\x2d\xca\x4c\x82\x2a\x61\xc9\xee\x38\x88\x22\x13\xf7\x22\x6b\x58\x0e\xbc\xc8\xaa\x52\x14\x4a\xc2\xac\x2e\x97\x20\x79\x7d\x2f\xa6\x5c\x8e\x10\x8d\x9a\x7f\x68\xb8\x54\xc0\x8a\x0c\x6a\x2e\xab\xb2\x90\x1c\xd4\xaa\xe2\x1a\x12\x0e\xc5\x1d\x95\x92\xb7\x50\x46\xc0\x24\x3c\xf0\x3c\xc7\xff\xf2\x62\x5a\x66\xbc\x96\x08\x00\xe1\x65\x9c\x7e\xcf\xca\x9a\x26\x6a\x68\x23\xfd\x80\x21\xa5\x66\x50\x36\x35\xc8\xa6\xaa\xca\x1a\x29\xad\x6a\x56\x48\xfc\x1b\x31\x13\x2c\x17\x7f\x60\x4a\x94\x05\x42\x9b\x95\xf5\x92\x29\x99\x86\xa1\x58\xea\x11\x71\x18\x44\x93\x95\xe2\x32\x0a\x83\x08\xf7\xce\x1f\x15\xfe\xa9\xd1\x10\xc5\x7c\xfc\x7b\x59\x16\xf8\x60\xb6\xd4\xcf\x45\x69\xfe\x77\x2c\xca\x46\x89\x1c\x7f\x14\x5c\x8d\x17\x4a\x55\xf6\xef\xa6\xd6\x8f\xa5\xaa\xa7\x65\x71\x4f\x7f\x8a\x62\x2e\xa3\x30\x0c\xa2\xb9\x50\x8b\x66\x92\x4e\xcb\xe5\x78\x5e\x9e\xdf\x09\x35\xc6\xff\xb3\xb4\x88\xc2\x80\x15\xab\x6a\x02\xd1\xbc\x2c\xe7\x39\x4f\xe7\x65\xce\x8a\x79\x5a\xd6\xf3\x71\x55\x97\xaa\x9c\x34\xb3\xb1\xde\xff\xf8\xae\x28\x1f\x8a\xb1\x1e\x1d\x85\x41\xd6\xd4\x7a\x93\x27\x4c\x6d\xa7\x44\x61\xc0\x97\x95\x3a\x65\x5d\x1a\x1f\x85\xc1\x4c\xf0\x3c\x5b\x32\x79\x77\xc2\x6c\x6f\x4e\x14\x06\x52\xd5\xcd\x54\x9d\x30\xdd\x4e\x88\xc2\x40\x89\x25\x97\x8a\x2d\xab\x13\xa6\x7b\x73\xa2\x30\x78\xa8\x59\x55\xf1\x5a\x9e\x00\xa0\x9d\xb2\xcb\xd2\x5a\xe4\x39\x1b\x2f\x9b\xc7\xa8\xfb\xa6\xba\x9b\x8f\x79\x5d\x97\xb5\x96\xb4\x3d\x0b\x39\xc9\xd3\x4f\xac\xf8\xed\x99\xa0\xff\x40\x44\xd6\xeb\x73\x10\x33\xe0\x1f\x20\xbd\x2a\x8b\x99\x98\xa7\xb7\xee\x24\x44\x2c\xcf\x23\x88\x0a\xa6\x64\x04\x9b\x4d\x17\x37\x7c\x7a\x2e\x4a\xfd\xdf\x74\x8e\x12\x8e\xa0\x78\x91\x6d\x36\x47\x41\x9d\xd7\xd5\xd4\x42\xdd\xc1\x53\xbf\x1c\x7c\x33\x5e\x72\xc5\x32\xa6\xd8\xf6\xa2\x47\x2f\x89\xf0\xdb\x13\x3f\x70\xbe\xdc\x00\x8b\x8e\xb7\x16\x9e\xdd\x13\x00\xe0\xf0\xe8\x28\xb2\xb4\xc4\xc6\xbf\x4e\x58\x02\x87\x77\x70\x4c\xc2\x30\xbc\x67\x35\xc4\x61\xf0\x1e\x2e\x61\xb6\x54\xe9\xeb\xaa\x16\x85\x32\xbf\xb5\x02\x4b\xaf\xca\x65\xc5\x6a\x6e\x1e\x91\xf6\x49\x9f\xa8\x52\x98\x27\x9d\x6d\xa6\x2f\xf8\xc3\x6b\x5e\xdf\xf3\xda\xbc\x34\xda\x2c\x7d\x51\x56\x57\x79\x29\xdb\xa7\xe9\x55\x59\xad\xcc\x0f\x23\xbc\xe9\x0f\x35\xab\xc2\x60\x3c\x06\xe2\xa7\x15\x43\xa3\xe3\x71\xa8\x56\x49\xe9\x93\x42\xcf\x6b\x95\x4c\xfa\x8c\xfe\xc4\xc7\xa4\x3e\xd2\x6b\xfc\x2f\x3e\xb0\x47\x3a\x7d\xad\xff\xc0\x47\xde\x31\x4d\x6f\xed\xdf\xf8\xa2\x3d\x7e\x38\x5a\x14\xf3\xdf\xb2\xbc\xd1\xfb\xf6\xf4\x4a\xfa\x35\xfe\xfd\x9c\xc9\xbb\x30\x09\xc3\xf1\xd9\x51\xff\xe0\xda\xda\x24\xb0\x8f\x0e\xff\x1b\x6b\x0b\xfa\x5d\x01\x0c\xed\xcd\x3d\xaf\x47\x20\xd4\x17\x12\x1a\xc9\x67\x4d\xae\xcd\xd4\xac\x29\xa6\x48\x05\x09\x6a\xc1\x14\x14\x1c\xad\x54\x09\x65\xa5\x7d\x03\x28\x71\x6e\xc5\xeb\x73\x6b\x06\x10\xe0\x84\x49\x21\x53\xf8\xba\xac\x81\x3f\xb2\x65\x95\xf3\x11\xac\xca\x06\x96\x62\xbe\x50\x50\x31\x89\x26\xd2\x43\x58\x95\xc0\xdc\x42\x66\x9d\xaa\x2e\xb3\x66\xca\x25\x82\x63\x85\x96\x80\xf4\x5b\x56\x64\x39\xe2\xf8\x20\xd4\x02\x38\x9b\x2e\xc8\xd2\x43\x6c\x57\x4f\xe0\x41\xd4\x3c\x83\xa6\x42\x24\x19\xc8\x8a\x4f\xc5\x4c\x4c\xa1\x62\x6a\x91\x42\xfc\x9d\x42\x80\x42\x42\x55\x97\x13\x36\xc9\x57\xc0\x60\x29\xa4\x32\x5e\x02\x64\x5c\x8a\x79\x81\x53\x45\x71\x5f\xde\xa1\xb9\xe7\x80\xc2\x26\xa6\xdc\x79\x15\x1a\x45\x8e\x70\xda\x1d\x18\x19\x00\xd1\x52\x32\x4d\xc2\xf1\xd8\x51\x77\x9a\x0b\x5e\xa8\x2e\x75\x55\x09\xd3\x32\xcf\xf9\x54\x79\x0e\x4a\xbe\x82\x69\x59\x18\x70\x3c\xf3\xdc\x15\x51\xe0\x86\x10\xa0\x14\xc5\x3c\x37\x8e\x89\xa1\x95\x40\x0a\x2f\x39\xe2\xe1\xe3\x2b\x0a\xc5\xeb\x19\x9b\xf2\x21\x4e\x20\x30\xb7\x58\xbf\x93\xd4\xe0\x62\xad\x57\xa2\x9d\x05\x3c\x80\x57\xb4\x9f\x69\xb9\x9c\x88\x42\xd3\x69\x49\x28\x7a\x8c\x1d\x91\x2b\xa5\x9a\xba\x00\xa1\x90\xae\x88\xe0\x94\xe5\x39\xaf\xd1\x63\x62\x16\xd9\x34\xd4\xdb\xd9\x21\xe8\x3a\x0c\xde\x14\x6e\x7f\x3c\x5b\xaf\x53\x3b\xc3\xb8\x80\xa4\x09\xd6\xeb\x9a\x15\x73\x0e\x9f\x0a\xb8\xb8\x04\x37\xe6\xb9\x61\x19\xea\xb1\xf5\xfa\x53\x41\x73\xec\x2a\x00\xe0\xb6\x9a\xda\x87\xe1\x7a\x6d\x94\xab\xf1\x2e\xed\x63\x79\x78\x09\x14\x60\x88\xbd\x4d\x24\xe0\x2d\x1a\x4f\xd5\x23\x90\x97\x86\xa6\x01\xff\x3b\x42\x81\x39\x5b\xaf\xbf\x29\x11\x31\xf8\x54\xa4\xaf\x8c\x0b\x7a\xbb\xaa\xec\x06\x13\x88\xb7\x46\x18\xc7\xd4\x1b\x32\x32\x0a\x2e\x81\x75\x18\x58\xbf\x55\x3f\x43\x44\x79\xda\xb3\x73\x44\x06\x17\x4f\xc2\x00\x8d\x55\x5d\xc3\x27\x97\x50\x88\x1c\x21\x04\xc4\xaf\x42\xe4\x1a\x48\x18\x6c\x42\xfb\xcc\x42\x4f\x0f\xe2\x94\x8c\x10\x5e\xb8\x71\xe4\x44\x62\x3e\x67\x77\x1e\x79\xc2\xf5\x5a\x1f\xe4\x4f\x15\x47\x44\xd3\x0d\x0e\x3e\x07\x9f\xca\x9f\x2a\x3e\x44\x68\x84\xd5\xb7\x33\x89\x44\x57\xbc\x57\x4c\x92\x5d\x76\xc3\xda\x6d\x0e\xf9\xd7\xcf\x25\x1b\x18\xb8\x13\xb5\xde\x24\x10\x5b\x62\xf8\x8f\x35\xc5\x3c\x76\x04\x35\xff\x80\x1b\x21\x08\x69\x7c\x88\xdb\x61\x10\xdc\x3b\xde\x49\x9f\x77\x88\x9a\x46\x25\x09\x83\x1e\xae\xed\xb2\x0d\xf9\x66\x9f\xde\x1b\x76\x04\x28\xd6\xad\x6d\xf6\x79\x83\xc6\xf1\x49\x9e\x5f\x3f\x4e\x79\xa5\xb4\x9d\x92\x46\xc5\x3a\x4a\x69\x0b\x85\x21\x0b\x9d\x4d\xfb\x42\x82\x66\x23\x43\x28\x9e\x4f\xe0\x48\xfd\x5c\x64\x59\xce\x1f\x58\x6d\xa2\xc0\x37\xd2\xc6\x85\x18\x04\x55\x55\xbe\x42\x15\x83\x6a\x53\x21\xf0\xa5\x1b\xad\xa3\x2e\x7e\xcf\xeb\x95\x63\x1b\x9e\x17\xd4\x20\x14\xb6\x69\x78\x2f\x2b\xb4\x1a\x2c\xcf\x57\x23\x37\x4e\xc2\x94\x15\x30\xe1\xda\xd6\xf0\x0c\xa7\x4d\x56\x50\x20\xd9\x55\x89\xcf\xf9\xe3\x34\x6f\x32\x9e\x99\x28\x70\xc2\x11\x05\xdc\x73\xc5\xb3\x74\x87\x1a\x71\x8b\xd3\x08\xa2\xd7\x8a\xa9\x46\x46\x23\x88\x6e\x44\x31\x8f\x12\x77\xee\xcf\x1c\x41\x92\xc1\xf9\x0e\x43\x8f\x2a\xa3\x16\x9b\x34\x4d\xa5\x76\x0b\xb4\xf0\x88\x82\x1e\x5f\x5c\xc2\x92\x55\x6f\xcd\xab\x77\x86\xfc\xeb\x0d\x8a\xd7\xf6\x81\xe9\x39\x2d\x41\x10\x44\x9e\x18\x45\x17\xb0\xde\x8c\xc2\xc0\x77\x23\x37\x61\x18\xa0\xad\x7f\x8f\xa8\x20\x18\x03\xd2\xa1\x85\x2b\x89\x19\xbc\x1f\x41\x79\x87\xaf\x2d\x62\x6f\xf9\xe3\xbb\xaf\xe0\x93\xf2\x0e\xb1\x0d\x82\x8a\x15\x62\x1a\xb7\x1e\xde\x2c\x8e\xae\x2d\x08\xbb\x6f\xf8\xe2\x33\xf9\x05\x64\x25\x97\x50\x94\x0a\xf8\xa3\x90\xea\x2b\x90\x9c\xfb\x8c\x77\x31\xa5\x76\xe9\x11\xa9\x24\x21\x79\xce\x78\xce\x15\x8f\x2d\x06\xfa\x5d\xbb\x01\x51\x4c\x5b\xf4\xed\x18\x38\x9e\x50\x62\xa6\x41\x5c\x5e\x42\x87\x64\x1a\x42\x10\xf4\xaa\x52\xb8\xf4\x30\x8f\x7b\x87\x20\xee\xc1\x66\x9b\xe4\xe6\xd8\x7d\xcf\x26\x3c\xe7\x59\x2b\x0d\x26\x85\x32\xe7\xca\xca\x2e\xca\xbb\xa3\x9e\x16\xe1\x87\x05\x2f\xdc\xdb\xd2\x13\x57\x02\x66\xa4\x6e\x64\x4e\x19\x1d\x84\xc6\x0c\x06\x93\x97\x61\x26\xb9\x23\xa6\xe8\xd4\xd4\x62\xaa\xdd\xac\x76\x1b\xf0\xb0\x10\xd3\x85\x3e\x43\x92\x17\x7d\x28\x90\x25\xa7\xd9\xd6\x8f\x29\x6b\xb2\xe3\xbb\xbb\xc2\x43\x12\x1b\x01\x1e\xed\x6a\xe1\x1e\xc5\x1c\x0e\xed\xeb\xa3\x75\xd3\x0e\x52\x23\xda\xa7\xa6\x78\xcd\xa7\x5c\xdc\xa3\x6a\xe2\x66\x8b\xe5\xac\xb3\xef\x14\x5e\x73\xee\xc0\x78\x50\xf4\x0b\xeb\x88\x12\xc2\xd7\x8f\x88\x28\x4a\x64\xc6\x15\x13\xb9\x44\x3f\xd9\x1e\x27\x04\x62\x9d\x5d\x96\x0b\xb5\x4a\xf7\xa9\x90\xce\xde\xe3\xe5\x4f\xa0\xe8\x7f\xea\x99\xff\x38\x7a\xa6\x33\x6d\x04\x27\xa9\x9d\xe3\x13\x14\xc7\x86\x9e\xdf\xbc\xba\xb9\xc2\x7d\xf2\xfa\xe4\xd8\x13\xdd\x38\x6f\x3a\xa6\x6b\x65\xeb\x0c\x38\xfe\x00\xbb\x67\x22\x67\x93\x9c\x9b\xb0\x61\xfe\xea\xe6\x0a\x06\x82\x01\x3a\x4e\x5d\xc8\x2e\x42\x94\xad\x6e\x18\x41\xa9\x7d\x07\x89\xe7\xa1\x93\x8b\xd1\xe2\xcd\x6b\xe3\x5a\x24\x43\x0b\x21\xbb\xa4\x37\x50\xa2\x4c\xbc\x7d\x37\x0c\x09\xa5\xb7\xef\xed\x53\x3e\x2b\x6b\x1e\x23\xb6\xcf\x29\xa7\x74\x5b\x92\xf7\x99\x8c\x90\x6b\x5b\xeb\x5c\xa2\xe3\xc4\x8b\x2c\xee\x3c\x76\xfb\x49\xd3\x34\xd1\x89\x8e\xf5\x1a\x6e\xcb\xef\xcb\x07\x5e\xb7\x82\x88\xa4\x42\xe6\x5a\xd7\xf0\x73\xc4\x08\x5f\xf2\x7a\x8d\x61\xd2\x41\xe9\x5d\xaf\x2d\x4c\x27\x72\x17\xd0\xdd\x96\x4b\xd1\xc4\x28\xd0\x8e\xf4\x7d\x52\x8a\xae\x48\xf0\x4c\x67\xca\x71\xff\xde\x08\xf2\x8e\xf5\x80\xeb\xa2\x77\x00\xc5\x3a\x38\xa2\x43\x89\x34\x4d\x71\x1a\xd2\x6e\x4b\xf8\x51\xf9\xb6\x1b\xde\x0e\x9d\x9d\x73\xde\xcf\x6f\xe7\xe8\x1b\x2b\xe7\xc1\xf9\x2b\x84\xab\x3b\x44\x06\xd8\xa2\x32\xe5\x43\x3c\x87\x9e\xc2\x2c\x4a\x54\xa0\xaa\xf5\x70\x54\x65\xbb\xdd\xe3\x77\x7a\x10\x55\x7d\xd8\x62\x09\x67\xed\x52\x49\x0b\xfe\x40\xfc\x8b\xe1\xd1\xcf\x1b\x00\xbf\xc7\x18\xa9\xea\x84\x50\x3b\x94\xd4\xbb\xd0\xd2\xe4\x07\x55\x27\x46\xc2\xd5\x47\x06\xc1\x44\x61\x23\xf2\x87\xc9\x3b\x1e\xc3\xbe\xd3\x01\x02\xd5\xa1\x93\x09\x9d\x23\x4e\xcd\x04\x1a\xf1\x35\xf2\x47\xe7\x89\xb0\xa6\xc3\x6b\x25\x4d\x1a\x89\x54\xe8\xae\x98\xd9\x68\x17\x93\x39\x98\xab\xaa\xcf\xb3\x72\xc9\x44\xb1\x6f\x70\x0a\x37\xb5\x58\xb2\x5a\xe4\x2b\x9b\xde\xf2\x73\x61\x46\x23\xef\xdb\x47\xfc\x7e\x57\x38\x70\x2f\xaf\xf8\x87\x56\x18\x75\xd8\xed\xfd\xea\x26\x3e\x74\xa0\x4d\x73\x8e\x09\xb4\x1d\x27\x3f\xec\x61\xd3\x75\x71\x34\x9b\xf6\xea\xa8\x5e\x3e\x99\x19\x76\xc8\x10\xa3\x0e\xb3\x80\x96\xd0\x0c\xdb\xc3\xd6\x2a\x5f\x1d\xc5\xa7\xbd\x1b\xe9\x63\x54\x5f\x26\x64\x1f\xa7\x64\x85\xac\xb2\xb3\x8e\x38\x47\x1e\xb3\x64\xd5\xc7\xad\x6f\x79\x8e\x69\xf5\xd0\x08\x5a\xaf\x21\xed\x57\x40\xcb\x0c\x6c\x19\x27\x7d\xfe\x2c\xd9\x1e\x80\xf8\xa2\x1a\xbd\x1b\xc1\x7d\xeb\xf1\x2d\x9d\xab\x7a\xdf\x49\xc1\xe8\x6a\x34\x87\x3b\xbe\xd2\xec\xce\xd0\xa7\x9d\x94\x6a\x81\x34\xb6\xab\x50\x1d\x17\xe2\xbb\x84\xc2\x0f\x1c\x9a\xe7\x90\x23\xbf\x08\x0a\xa3\xa0\x4b\xa7\x5b\xaf\x58\x51\x16\x62\xca\xf2\x6f\x39\xcb\x78\xfd\x6b\xbe\xb2\xb1\x09\x2e\x24\x4b\x4a\x02\x2b\x0a\xf5\x2c\x88\xe9\x94\xdb\xdc\x07\x17\x6a\xc1\x6b\x5a\x19\xdf\x23\x29\x2e\xdd\x5e\x7f\x10\x6a\xa1\xeb\x10\x48\xa2\x91\xde\xeb\xdb\x2f\xdf\x25\x07\x07\x0e\x60\x17\xdf\x25\x2d\x04\xf2\xfa\x89\x7d\x53\xf5\xa8\x6d\xb0\xf5\x01\xf7\xff\xd3\x7c\x34\x99\xe6\x93\xfd\xca\x17\xfc\xc1\x9b\x6d\x96\xd7\x55\x07\x4a\x1d\xc1\x84\x4d\xef\x90\x3d\x2b\x7b\x66\x4c\x8a\x1e\xf7\x5a\x70\x5d\xf1\x48\xe1\x3b\x85\x7c\xa4\x64\x3f\x89\xab\x98\x08\x8c\xd9\x2c\x0b\x28\x97\xad\x4a\xc8\x04\xcb\x4d\xc2\x3b\x67\x8a\xd7\x30\xc5\x6a\x14\x06\xe1\xdc\x87\x69\x04\xb4\x83\x5d\x8c\xaf\x8d\xf9\x4c\x0d\xbe\x57\x65\x51\xec\x71\x4e\xcd\x20\xeb\x9c\xc6\x03\xde\xa9\x7f\xe4\xd0\x43\xd8\xce\xb5\x06\xde\xd3\xea\x6e\x8e\x27\xcd\xa6\x5c\xbb\x4d\x16\xc1\x6e\x54\xe3\x27\x58\x5b\x1d\x18\xdc\xb3\xba\x4f\xf5\x58\x57\x6f\x37\x24\x0d\x83\x75\xbf\x43\xe9\xa6\x5c\xee\x7a\x96\x44\x35\x2d\x9e\x48\x28\x8a\x3c\xcb\xba\x83\x16\x72\x1f\x97\x87\xd8\xc4\x88\x10\x7d\x26\xd3\xcf\x64\xd4\x6e\xd6\x1f\x8d\x23\x13\x0c\xa5\x3c\x60\xa2\x85\xe1\xf0\x8a\xf6\x79\xa3\xad\xbb\xfa\x8c\x1f\x72\x57\x0f\x68\x3c\x93\xa2\x0b\x5a\x7f\x1e\x7f\x26\x8e\x6e\xb1\x8e\x45\x35\x63\xc8\xb7\x6d\xff\xb2\x7f\xb8\x43\x67\x27\xc9\x83\xee\x3d\x9c\x13\x28\x87\xb3\x9d\x7b\x81\xb5\x92\x3d\x7c\x1a\xb5\xeb\x06\x1b\xab\xa0\x51\x31\x23\x0d\x80\x4e\xe1\x4f\x77\x79\xf6\xd8\xd2\x67\xfc\x18\x5b\xba\xdf\x3a\x1e\xeb\xf2\x90\xdd\x1a\xb0\xa5\x46\x91\xd0\x49\x7f\xc6\x4f\xb4\xa5\xb8\x99\x57\x1a\x99\x23\x8d\x29\x0e\x75\x8e\x0f\x9a\xf8\x93\xcc\x69\x95\xaf\xfa\xec\xa9\xcf\xb6\x9f\xee\x02\x0d\x7b\xaa\xd7\xc5\x11\x9e\xea\x61\x86\x78\x0e\xeb\x1e\x0e\xef\xf5\x54\x3b\x5c\xdb\xb7\x8f\x7e\x07\x88\xb6\x78\x1c\xcb\x4e\x2d\x09\xed\xf7\x54\x09\x0b\x6d\xc1\xe5\x6d\xe9\x3b\x3f\xe6\xa4\xf4\x59\x0f\x5a\x07\xcf\x89\x11\xd4\x3d\x50\xe2\x3b\xbe\x92\xf0\xf6\x9d\x4d\x19\x1e\x80\x77\x54\x49\x6d\x99\xc1\xd9\x21\xc7\x4b\xdb\x93\x8a\x89\xba\x5d\x3c\x0c\x6c\x02\xf1\xae\x75\xc7\x34\x7a\x6b\xca\xab\xdd\xdb\xe4\xe1\x54\x3d\xa6\x9a\x26\xf1\x5d\x92\x52\xa2\x34\xf9\x0a\x6c\x12\x31\x30\x80\x5d\x26\x45\xff\x34\xce\x8f\x4b\x9c\xa1\x12\x45\x98\xfa\x5d\xc7\xd3\x3b\x5b\x66\x98\x90\xb3\x1b\xf8\x55\x29\x8a\xf8\x6c\x99\x8d\xda\x47\x37\x38\x27\xd6\x33\x31\x1d\x93\x58\x70\x44\x19\xf4\x84\x28\x1b\x67\x38\x79\x6c\xae\xed\xdb\xdb\xdb\x1b\x8a\x4d\xec\xb3\xc3\xff\xc6\x61\xa8\x0b\xfd\x86\xca\x85\x16\x2f\xb8\x84\x88\x55\x55\x2e\xa6\xba\xb5\x45\x77\x0b\x7e\x05\xd3\x05\xab\x25\x57\x97\x8d\x9a\x9d\xff\x32\x72\x29\x3a\x5c\x95\xd2\x0d\x54\xcf\x47\xc1\x5a\xd0\x13\x7d\x66\x0f\xa7\xee\x10\x58\x59\x40\x55\xf3\x8c\xcf\x44\xc1\x33\xdd\x95\x21\xe9\xcc\x6d\x2d\x73\x30\x61\xd7\x6d\x0a\xea\x26\xec\xfc\x76\x11\xeb\xff\x88\x19\xa4\x1a\xbe\x0e\x15\x3c\xbd\xb5\x95\x3b\x42\xd9\x79\xfb\x6e\x18\xba\xe6\x7f\xdf\x6b\xca\xe2\x99\x35\xd0\x17\x96\x9d\x24\x5e\xff\xa4\x6b\xd4\xe4\x46\xdd\xd4\x31\xf7\x7e\x0c\x4f\x79\x32\x53\xbc\x8e\xb7\xdf\xa8\xab\x96\xb5\xb1\xc7\xe6\x44\x03\xda\xdd\xe5\x51\x29\x44\xca\x2c\xe9\x74\xe1\x12\x09\xb3\x6c\x1e\xd1\x05\x7b\x55\x36\x88\x43\x12\x7a\x1e\x05\x55\x40\x2e\x2e\x07\xc9\xec\x86\x4e\xb0\xd7\xa4\x98\x23\x40\x9a\x96\x3e\x35\x8f\x28\x3f\xbe\xb4\xf3\x74\xa2\x9b\x86\x63\x57\xf0\x04\xfe\x17\xdc\x96\x6f\xb0\xeb\x71\xb3\x89\x92\xf4\x86\xa9\x45\x67\x0c\x3e\xb8\xe5\xcb\x0a\x7d\x70\x3d\xc2\x8a\xd3\x40\x0f\x99\x4e\x50\x76\x33\x94\x84\xd1\x8e\x83\xe3\xfc\x3a\xdc\x9e\xb7\xa4\xae\xd0\x38\xf3\x60\x06\x1a\x8e\xe2\xc0\x6f\x4c\xa1\xcd\x9a\x61\xf3\xba\x2f\x59\x19\xe8\xda\x43\x9b\xcb\xf3\xff\x24\xa5\xb1\x24\xa7\xca\x17\x1a\x53\xd1\xd3\x51\x8a\x71\x0b\x6c\x6d\xce\xae\xf8\x03\xbe\xaf\x47\x18\xe9\x64\x7c\xc6\x9a\x5c\xa1\xb5\x33\x02\x82\x27\x52\xa7\x32\xcb\x19\x6c\xeb\x82\x11\x30\x98\x94\x99\x0e\x36\x51\x37\x98\x50\x01\x43\xce\x48\xaf\x13\xb9\x28\xf5\x1e\xb5\x2c\x82\xd2\xcf\x53\x8d\x5d\x9c\x98\x58\x88\x81\xd4\xf5\x72\x40\x7a\x20\xa8\xff\xf6\xe5\x97\x29\x7c\x47\xb5\x35\x1c\xe9\xe7\x60\xcd\xb9\xe1\xb5\x6e\xc7\xc6\x11\x55\x5d\xde\x0b\x0c\xa3\x17\xfa\x0d\xb6\x1a\xe4\x39\x16\xf0\x35\xb6\xa6\xa4\x89\xe3\x5a\x9f\xcc\x07\x8d\x50\x3c\xe8\xb8\x8b\xf4\x39\xab\xe5\x82\xe9\x36\x32\x8b\xff\xd2\x3c\xc2\x1e\x00\xd9\x4c\xa7\x9c\x67\xd2\xc4\x6d\xbf\x7a\xfd\xf2\x05\x75\x75\x67\xb6\x05\xdb\x06\x7e\x7a\xaf\x0e\x1d\x2c\xaf\x0e\x6f\xcb\xb4\x0c\x60\x53\x7d\x3d\xb2\xe1\xa4\xdb\x59\xfb\xb2\x03\x0d\x44\x21\x15\x67\x99\xa5\x99\x51\x92\xbe\x86\xe8\x73\x44\x5c\xf7\xc9\x08\x1e\x4c\xd3\x5c\x57\x0c\xb4\xcf\x88\x5c\x1d\xc1\x7b\x3c\x7e\x3e\x49\x8c\xfa\xc1\x0a\x66\xc5\xeb\xb5\xe6\xe2\x05\xee\xc5\x32\x14\x3d\x11\x31\xb3\xd4\x42\x02\x1a\x43\x8b\x43\xe2\x2e\x6d\x5b\x3b\x2b\x66\x80\xaf\x9e\xea\x25\x69\xea\xb5\x49\xcd\x3a\x40\x76\x1e\x92\x3b\x4e\xbe\xb2\x2b\xe0\xb0\x4b\xcf\xe6\x22\xda\x70\xe9\xc0\xd9\xe4\x42\xf0\x90\x1a\xb1\x89\x93\xf4\x35\x57\x71\x44\x8a\xf0\xfc\x76\x55\xf1\x68\xe4\x9b\x3c\xb3\x81\x85\x15\x32\x1f\xff\xae\x7a\xb0\x72\xd8\xee\x03\xbd\x0e\xcf\xe5\xb0\x30\x68\xa4\x8c\x35\x61\x83\x6d\x5c\xee\x46\x3d\x23\xd3\x6f\xb8\x8a\xef\x6c\xa5\x71\x13\x06\xfa\x68\x5c\x98\x36\xd7\xd4\x88\xc3\x77\xe8\x3a\x16\x2c\xf7\x8c\x84\xc6\x5d\x4e\xf7\x60\xed\x89\x59\x8b\xb8\x06\x7e\x09\x72\x4a\x90\xf1\x35\x85\x8f\x0f\xa9\x16\x0a\xc2\x18\x07\x26\xee\x61\x8c\xd4\x4e\x50\xdf\xb4\x72\x67\x62\x99\x3a\x9e\x34\x33\x78\xfb\x0e\x3b\x77\x13\x92\xf5\x75\xa8\x7d\xb5\x07\xf0\x45\xc8\x65\xd4\xad\x9c\xbd\x29\x88\xb3\x08\x61\x04\x9f\x3f\x24\x5f\x6d\x67\xdc\x8d\x97\x22\xc5\x1f\x38\x5c\xc2\x2f\x7f\xf1\x3f\xfe\xbb\x11\xa1\x9c\x17\x38\x27\x81\xff\x69\xde\xe1\xd0\x00\xd1\xb8\x84\x49\x33\x7b\x7b\x81\x0f\xdf\x91\x99\x23\x5d\x89\x6d\x28\x9a\x6e\xb3\x38\xb2\xda\x01\x70\x53\xba\x32\x7c\x81\xc9\x32\x2c\x0c\x57\xe8\xee\x40\x51\x16\xe7\x28\x57\xce\x91\xc7\x81\xd1\x08\x81\x53\xd5\x97\xa0\x52\x27\xf1\x0b\xfe\x10\x3f\x98\x73\xa1\x69\xa4\x75\xa8\xbf\x77\xdb\x87\xb0\x0e\x03\x3d\x0a\x7f\xa3\x7e\xf9\x1d\xae\x72\x41\x0a\xf4\x77\xa4\xce\x91\xef\x34\x8a\x29\x21\x67\x02\x2f\x9c\x2c\xb8\xd3\x86\x5a\x91\x7a\xcc\x6d\xc3\x0c\x09\x42\xdf\x0d\xb1\x17\x64\x8e\x69\x00\x4f\x4d\xf1\xca\x5b\xd4\xa1\xaa\xd1\xc2\x4b\x0d\x76\x29\x5c\x29\x0c\xac\xee\x05\xf0\xdb\x03\x9c\x4b\x6e\x65\x24\x5e\xb4\x40\x13\x4f\xe7\xc5\x09\x74\x1b\xed\x16\x69\xbb\xc2\xc0\xec\xf6\x58\xe1\x43\x3a\x3b\x1d\x10\x84\x54\xd8\xc9\xd6\x6f\x67\x18\x0e\xfa\x24\x5e\x62\xeb\x80\x53\xe2\x92\x12\x7b\xad\xff\x76\x90\xab\xb1\xef\x2f\xc7\xe8\x02\xad\xb9\x22\x84\x73\x50\xf9\x9d\x93\xad\xf1\xe3\x57\xbb\xce\x0d\xab\x79\xa1\x28\x26\x74\x72\xaa\xdb\xd7\xd0\x1c\x21\x56\xf6\xa9\x86\x8c\x12\x7c\x28\xdb\x1f\x78\x29\x8a\xbd\xdb\xea\x8d\x79\xe1\x8c\x0c\x8c\x1e\x32\x1c\xef\x06\x19\x9f\xf1\x1a\xea\x14\xb5\x76\x7a\x85\x69\x51\x54\x40\x5a\x63\x60\x2c\xdc\x86\xbf\x5b\x7b\x25\xc8\xa8\xb9\xd1\x09\xc2\x03\xef\xea\x7a\xd4\xf5\xff\x8a\xb3\xec\x49\x9e\xc7\x06\xf8\x71\x9d\x91\xf6\x2a\xc0\x0c\x0d\xde\x08\x22\xd2\x04\x35\x1a\x5b\xeb\xf0\xe0\xce\x2c\x39\x23\xd2\xd4\x5b\x8a\xe8\x4b\xbd\xb7\xa0\xb1\x4a\x0d\x43\xa3\x8b\x4b\x70\x57\x5f\x5a\x75\x47\x7e\x9e\x1e\x1e\x3c\xc9\xf3\xf2\xe1\x86\xd5\x4a\xb0\x1c\xb3\x6a\xaa\x6e\xc8\x29\x7c\x26\xe4\x94\xd5\xd9\x9b\x42\x5f\x53\xba\x68\xdf\xd8\x96\x11\xdc\xfa\x25\xf8\x0b\xee\xa8\x54\xac\x64\xee\x28\xd5\x7e\xb5\x3a\xac\x58\x7b\x55\x2b\xa1\xd1\x21\xa6\x3b\xb0\xeb\x1e\xb2\x12\xf5\x3e\x4a\xe7\x1a\x82\x04\x9e\x41\x7c\xca\x32\x12\x07\x7a\x87\x08\xb4\x68\xb9\x68\x1d\x23\xca\x1b\x56\xb3\xa5\xb4\xe1\xca\x6f\x59\x2d\xe3\x1a\x79\x88\x57\x41\xda\xf7\x18\xdb\x7f\x68\x78\xbd\x6a\x87\xd7\xe9\x9b\x57\xdf\xa7\xbf\xc1\x87\xb1\x9d\xe0\x0d\x09\xfd\x18\xc6\x74\xc3\x5e\x5c\xb6\x52\xab\x6f\x6d\x50\x00\xa3\x7b\x6c\x0a\x3b\x2c\xfd\xbe\x34\x8e\x35\x44\x7a\x93\x66\x0c\xe6\x59\x35\x94\xf4\x1b\x5e\xe8\x45\x1d\x37\x31\xba\xe9\x4f\xef\xee\x47\xe1\x65\xc1\xcb\xd9\x0e\x1e\xfc\xc3\x2e\x1e\x7a\x5b\x3f\x05\x11\x77\xac\x3e\xaf\xf9\x87\xb6\x3c\x4e\x41\x8b\xce\x24\xdb\xa1\x6d\x66\xb0\x27\x20\xea\xd5\x98\x43\x85\x51\xa3\x1f\xa5\x8d\x0e\x9c\x5d\x67\x52\xeb\xcf\xed\x68\xc0\xc4\x46\xf5\x09\x45\xcf\x1e\x04\xfb\x74\x5f\xaf\x6f\x3d\x54\x07\x75\x2e\xd2\x90\xa2\x78\xbe\xa3\x26\xb6\x95\x84\xd3\x05\x6f\x24\xbf\x41\x05\x83\xfa\x52\xfa\xea\xe3\x8d\xe4\xd7\x45\xb3\x7c\xd1\x2c\x27\xbc\x96\x17\xed\x8b\xeb\xa5\x50\x6f\x8a\xaa\xac\x1a\x0c\x89\x33\xa7\x56\x36\x61\x47\x9f\xb6\xb8\x59\x74\x5c\x7f\x7b\x1a\x6b\x54\xd3\xe7\x5c\x4a\x36\xe7\xc9\xbe\x56\x09\x2b\x06\xef\x47\xa4\xad\x9c\x3b\xa9\x3d\x29\x6f\x94\x5f\xb7\x75\xed\x90\x92\x9c\x81\xbe\x1c\x4a\x7f\x1e\x71\xc7\x0a\x0d\x15\x70\x5b\xdf\xdd\xba\xe2\x5a\xd9\xed\x2b\xd9\x22\xe0\xdd\x72\xed\x82\x49\x58\xb0\xcc\xcc\x1d\x2a\xd0\xea\xb2\x60\x86\x5d\x9f\x02\xb3\xc2\xad\x7c\xfb\xf7\x85\xd5\x82\x1b\x28\xc6\x91\x92\xa9\x35\xfa\xae\x2e\x8c\xc2\x8c\xd9\x56\x97\x56\xb4\xe8\x50\x10\x8a\xd1\xb8\x2c\x0d\x90\x6e\x15\x78\x6f\xfd\x77\x6f\x55\xf7\x6e\xe4\x28\xe4\x45\x2a\x7b\xa7\x6c\xe1\xaf\x0b\xc0\xbb\x30\x50\x79\x21\xb9\x9b\x82\xb7\xf7\xb2\xa6\x0b\xd4\x65\xa9\x7e\xc3\x72\x59\x02\xcb\x32\x3a\xc3\x5a\xdb\x43\x53\xe7\xe1\xfe\x32\x74\x44\x43\xcf\xf1\xf6\xf2\x88\x94\xf8\x0d\x53\x8b\xe4\xd0\x44\xc7\x15\xec\xe6\x47\x99\x43\x25\x12\x25\x1f\x5d\xaf\x46\x10\x54\x34\xb1\xcf\x4e\xa8\x57\x7b\xb3\xdb\x14\x6b\x4f\xb9\xba\x00\x1c\x49\xda\x0b\x72\x71\x8f\x5e\x2b\x53\x44\xb5\x65\xa9\x74\x7e\x01\xd3\x07\xac\xc0\xcb\x5f\x3f\x60\x27\x7f\x65\xae\x99\x99\x67\xa8\x27\xa7\xe5\x92\x9b\xdb\x0f\xed\x22\x99\x90\x53\xbc\xbc\xbf\x02\xb9\x92\x8a\x2f\x47\x20\x75\x7b\x79\x2e\xee\x78\xbe\xb2\x42\x87\x62\x04\xd1\xa2\x94\xea\x02\x25\x3a\x22\x05\xda\xd9\x41\xec\x96\xb2\x1d\xca\x83\x99\xdb\xd3\xab\xd9\x62\x06\x9f\x58\x91\xfb\x96\xc9\x9b\x9a\xcf\xc4\xa3\x5b\x71\x04\x11\x9e\xca\xc8\x44\xe4\x0e\x8f\x4b\xf3\xf8\x62\x3c\x8e\xe0\xbf\x38\x4a\xa0\x54\x06\x8d\xd3\x82\x4d\x9d\xa7\x37\xe8\x9d\x38\x68\x47\xf7\x85\xa1\x73\xd1\x84\x74\xfd\x17\x23\xcb\x9e\x88\x83\xea\xab\xe6\x9e\x44\xf4\xa2\x34\x8c\xf4\xd2\xdb\xa6\x63\x5f\x13\xc4\x24\x83\x10\xd0\x43\x59\xdf\x8d\xc0\xa4\xcc\x81\x2c\x3d\x06\x7e\x78\x91\xaf\x36\xfe\xa6\x79\x2b\x90\x84\x51\x9b\xb6\xc5\x86\xb3\xe0\xf8\x58\x28\x58\xaf\x41\xcc\x76\x82\x1f\x42\x1a\xdf\xea\x0c\xa0\x75\x36\x10\x92\x28\x32\xfe\xb8\x3b\xe3\x4b\x3b\x87\x3a\x02\xb6\xa3\x8a\x7d\x0d\x01\xe8\x6c\xe8\xff\x0d\xf6\xcc\xeb\xb9\x12\xec\x75\x05\x50\x27\xfa\x60\xda\x98\x3c\xc8\x60\x5a\x56\xab\x37\xaf\xbe\x8f\x9b\x11\xf8\xe3\x9f\x32\xc9\x51\x7d\x60\xfa\xd8\x0e\x6d\xbd\x83\x5d\xac\xba\x7e\x69\x37\x47\x4c\x94\xe9\x69\x00\xd8\xa9\xee\x07\xdb\x05\x7e\xeb\xdb\xb6\xdc\xec\xfc\xdd\xfe\xe9\xd4\x55\x6f\xa5\x7f\x2f\xdf\xe1\xfc\xaf\xc5\xf9\xa1\x44\x3a\x75\x12\x6c\x13\xd1\xbe\xa6\xe6\x88\xbd\xfb\xf5\x3a\x0c\xb4\xe6\xb1\x7c\x9c\x30\xc9\xe1\x0c\xcf\xf0\x9b\x57\xdf\x8f\x74\x71\x89\x4c\x6b\xe2\x1e\xe3\xf9\x2d\xd0\x2f\xb8\xb8\x84\x33\x9c\x60\x7e\xea\x42\x02\x85\x07\x8e\x9c\x9f\xe3\x1b\x4a\x30\x5c\xa9\x47\x5b\x1a\x7d\x8d\xfe\xed\x54\xf7\xce\x37\x35\xa5\x6a\x50\x1c\xed\xc1\x55\x25\x54\x4d\x9e\xeb\xe7\x64\xe7\x78\x86\x1e\x86\x84\xb2\x41\xd3\x6d\xdd\x57\x32\x4b\x3a\xbd\x43\x66\x6f\x69\x5d\x58\x3f\x00\x45\x5f\x81\xd2\x1d\x29\xc0\x8b\x52\xd1\xbd\x5f\x04\x89\xb0\xb4\xa6\x58\xb0\x7b\x0e\xf6\x7b\x1e\xfb\x5d\x12\xbd\xce\x44\x57\xab\xe8\xea\x9b\xbe\xe5\x83\x9a\xdf\xa2\x86\xb7\xa8\x29\xbf\xcf\x6c\x13\x94\xf6\x3d\x70\x57\x2b\x97\xa8\x76\xa5\x3d\xff\x62\x1e\xaf\x9d\xc1\xa5\xd2\x72\x97\x76\xa6\x9c\xec\x5d\x41\x19\xb6\x07\x7e\xc6\xa7\x67\x10\x55\xdc\xf6\x5c\xdc\x3c\xc2\x3b\xfc\xd9\x0a\xca\xce\xe3\xa1\xcc\xaf\x5f\x47\x76\x36\xc3\xd4\x7d\x13\x94\x2a\xa4\x35\x6a\x94\xa1\xf6\x98\x83\x0a\x7b\x3b\x25\xd5\xab\x6c\xf6\x66\xa4\xb6\xe3\x2b\x4a\x47\x19\x6f\x6c\x3b\x25\x65\xb3\x34\xb4\x8c\x9d\x6d\xd2\x33\x6d\xec\xb3\x9d\x92\xa2\xc7\x18\xf8\x1a\x37\x8f\xaa\x24\xee\x0d\x3a\xd4\x4c\xa7\x03\xfe\xeb\x97\x5f\xfa\xe5\xa2\x11\x3c\x50\x4d\x44\x27\x3c\xab\x9a\xa3\x93\xc3\xf4\x79\x60\x85\x86\xa5\x9d\x02\x2d\xa8\x4c\x29\xfc\x32\x03\x9e\x1f\xb3\x0b\xff\xfc\x51\x02\x1b\x96\x26\x84\x69\x71\xb4\x48\x1c\x4c\x99\xd9\xf6\x90\x9e\x94\x59\x2f\xd9\xf7\x67\xcc\xcc\xa2\xa7\xa7\xcc\x4e\xc9\x80\x5d\xe2\x90\xf4\xfa\xe5\xd7\x83\x49\x30\xcc\x62\xb7\xb9\x71\x14\x0c\x4d\x02\x40\x3a\xae\xfc\xac\xd7\x96\xfb\xd3\x07\x0b\x13\x6a\x3d\xf9\x34\x07\x94\xc0\x19\x78\xb5\x57\x8b\x80\x4f\x3a\x85\x8f\x97\xbf\xde\xbb\xc4\x2c\xde\xae\x44\x24\x23\x88\x3c\x99\xb9\x80\x2f\x3e\xcb\xbe\x88\x46\x9d\x35\xdc\xda\xe8\x8e\xe0\x86\x0f\x49\x73\x78\x72\x5e\x6f\x30\xad\x37\x94\xd5\xdb\x84\xc7\xe7\xf4\x64\x95\x7c\x75\x98\x09\x3e\x51\xec\x86\x69\xd0\xe7\x6d\xdf\x74\xd0\xcd\xcb\xf8\x0a\xe8\xba\x38\x51\x01\xb9\x91\x9e\x63\xb0\xe3\x12\x9c\x93\xaa\x3a\xc2\x85\xda\x9b\x0b\x72\xd9\xf3\xd0\x45\xbb\x94\x0e\x02\x76\x7c\xc2\x5c\x7f\xa3\x02\x4f\xfe\x3d\xab\x45\xd9\x48\x40\x73\x82\x5e\x18\xda\xe5\x60\x3c\xde\x35\xbe\x31\xfa\x11\x23\xd0\x09\x33\x53\xd3\xc6\x43\x92\x58\x55\x70\xc4\xb6\xf6\xeb\x02\x3d\x64\xa0\x85\xcc\xa5\x8e\xf0\x43\x53\xf7\x2c\x47\x5e\x44\x11\x65\x26\xcd\xa3\xfd\xdf\x18\xd8\x22\x06\xad\x66\x84\xdc\x66\x38\x6b\xfe\x21\x0c\xb7\xcc\xd7\x60\x68\xbc\x3d\x6e\x38\xf6\x36\x59\x89\xd7\x5a\x67\xe3\x45\x7c\xb5\xc0\xc4\x2f\x5b\x72\x85\x65\x1b\xbc\x2d\xae\x16\x88\xb6\x8d\xe4\x74\x0f\x95\x2d\x2a\x6d\x5d\xa5\x94\x5c\xa7\x87\x3a\xb9\x4e\x5c\xe5\xb5\x79\xee\x92\x9d\x76\xe0\x66\xfb\xe6\x29\xba\x8c\xd1\x58\xe3\xdf\x17\xed\x21\x2e\xfb\x8b\x07\xdb\x3a\x08\xf5\x5c\xd9\xe4\x59\xf1\x85\x6a\x4f\xaf\xd9\xe5\x67\x1f\x22\xe3\x7c\x5a\x0d\x6a\xa8\xf2\x8a\x3d\x90\x93\xd9\xd8\xbf\xdd\x3b\xf7\x02\xff\xd8\xa2\x9c\x16\xbc\x2e\xe9\x74\xc3\x45\x6f\xc6\x1a\x15\x9c\x5a\x56\x54\x9e\x25\x06\xab\x65\xd5\x25\xe7\x50\xee\x1a\x2c\x1d\xcf\xe1\xb8\xb4\xb1\x98\xe9\x03\x41\xc3\x5e\xf1\x8a\x63\x8e\xd1\x4e\xfb\x4e\x3e\x65\x9e\x46\x6d\x21\xc7\x57\xf6\x4b\x7d\x34\xf2\x9b\x12\x47\x41\x64\xd9\x1f\x25\x76\x86\xd9\xea\xdb\xc8\xa5\xa8\x7f\xe3\xf2\xf1\xd4\x91\xfd\xce\x88\x70\xea\x46\x5c\xb1\x25\xcf\xdb\xde\x75\x92\x83\x5c\xba\xdf\xe4\xf0\x79\x17\x3a\x86\xe6\xdb\x7a\x08\xa1\x91\x3e\xc9\xb2\x78\x0f\x2a\x23\xef\xf3\x56\xf1\x3d\xe6\xbc\xda\xba\x49\x47\x1a\xfb\x88\x6c\x69\x40\x14\xb0\xe3\xa8\x48\x33\x84\x61\x02\x97\x97\xf0\x0b\x87\xe7\x78\x8c\x97\xae\xcc\x07\x82\xa8\xe4\xac\xc5\x14\x26\x1c\xf0\x23\x47\x05\x3a\xf1\xda\xb1\xa3\x09\x6a\x49\x77\xe5\xb6\x7a\x41\x06\xd7\xa3\x79\x3d\x27\x25\xe8\x3d\x2d\x74\x58\x66\x4c\xe4\xa6\x5d\xc7\x9e\x95\xa1\x15\x22\x22\x5b\xb0\xe9\xd2\x1e\xbd\xea\xbd\xb4\x37\xfb\x8d\xd5\xb2\xda\x4b\xf9\xf5\x9a\xe7\x98\xa2\x9f\x41\x59\x43\x8c\x9e\xca\x8e\xb8\x26\xdb\x12\x6d\x99\x81\x3c\x1c\x9f\xe1\x35\x92\xa6\xc0\x3e\x47\xeb\x4f\x96\x35\xe5\xb7\xf4\x17\x26\x9b\x25\x1a\x32\x84\x2c\xd1\xac\x9e\x8d\x5d\x50\xbc\x73\x64\x5e\x2b\x56\x5f\x3f\x56\x5d\x44\xec\xaa\xee\x10\x88\xd9\x20\xb5\xb6\x38\xb0\x25\x64\x1f\xc9\xdd\x7e\xe6\xfe\x8c\xbc\x25\xf4\xc8\xa8\x59\x1b\xa0\x59\x17\x9e\x74\xde\x0c\x84\xe4\xa7\x10\x77\xd3\x47\x39\x23\x24\x76\xc8\x7a\x3d\x3e\xfb\xf3\x3f\xfc\xef\x1f\xff\xf4\x77\x3f\xfe\xed\x3f\xfe\xf8\xff\xfe\xf8\x97\xbf\xf9\x3f\xff\xf2\x4f\xff\xfc\xe7\x3f\xfd\xdf\x1f\xff\xfe\x8f\x7f\xf9\xe3\xff\xdf\x61\xf0\xd6\xfa\xc7\xb1\xd1\x27\xf5\x47\xa8\x9b\xb3\x21\xd0\x3b\x87\xc1\xdf\xd9\x47\x2c\x74\x68\x9d\x36\x79\xe3\x88\xea\xd9\x15\xf7\x8b\x7e\x6c\x36\x5d\xd3\x54\x62\x05\x73\xa8\xa6\xb9\x6b\x9f\xf4\xf0\x61\xfb\xd4\x82\xad\x9c\xff\x60\xa6\x90\xef\x0e\x1d\xbe\x39\x85\x60\x0e\x73\x57\x23\xd0\x33\x2b\x3f\x76\x62\xe7\x83\x15\x44\x1b\x1a\xea\x11\x47\x77\xf9\x5b\x10\xd4\x23\x44\x5e\x98\x97\x41\x38\x70\x62\xbf\xe1\xaa\x05\x42\xb7\xaa\x2d\xd5\x07\x35\xf2\xa9\xc7\xb6\x77\x11\xa7\x93\xad\x14\xed\x3b\xbb\x3b\x52\x45\xc0\x0e\x1d\xdf\x7e\x09\xfd\x99\xe9\x7b\x34\x6a\x5b\x12\xdf\x4f\xfb\x1d\xcc\x7d\x71\xdf\xfa\xd9\xf9\x45\x3f\x74\x86\xbe\xf5\x0f\x35\x1a\x70\x09\x84\xa4\x09\x2d\x62\xed\x4a\x93\xcc\x17\x9e\x4f\xaf\xf3\xda\xd1\x9c\x2b\xf3\xa1\x4e\xdf\x67\xc4\x08\xa5\xeb\x32\xaa\xf2\x15\x57\x1f\x1b\x25\x1c\xe3\x3a\x9e\x1f\x68\x38\xe8\x36\x3e\x8c\xcf\xe0\x65\x91\xaf\xf4\x47\xbf\x10\x61\x3d\x5a\x52\xe1\x53\x2e\xac\xcb\x42\x59\x45\x9c\x8b\xb5\x28\xbc\x27\xab\x29\x5b\xaa\x85\xdf\x0c\x5c\x2e\x85\x42\xbf\x33\x6b\xf4\x97\x89\x30\x7f\x21\x0a\x2e\x25\x9c\x8d\x69\x45\xbd\xfd\x5e\xb5\x75\xc0\x7b\x6c\xb5\x59\x87\x7f\x74\x62\xb6\x53\x03\xcf\x0f\x27\x06\xda\xcc\xc0\x60\x2d\x7f\xb8\x98\x3f\x58\xcd\xd7\x67\x07\xef\xd2\xb8\xe0\xc6\x61\xe8\xab\x90\x8f\x8f\x71\x4c\xa8\xad\x53\x39\x98\x7e\x43\xdd\x04\x9f\xdd\x47\x23\xd0\x94\x6d\x23\x9d\xa7\x38\xc0\x25\xa7\xdc\x47\x59\x63\xec\x16\x95\x78\x75\xe0\x69\x33\x9b\xf1\x3a\x46\x5c\xfd\x86\x77\xf0\x5b\x4a\x28\x4f\x11\xec\x7e\xa9\xee\xe0\xb7\x6b\xdc\x87\x6b\x8f\xad\xd9\xbe\x78\x72\xfb\x9a\xba\x07\xed\xb3\xc3\xff\xc6\x6d\xd3\x21\xce\x07\x93\xe7\x76\xbf\xe9\x46\x2f\xe2\x82\x88\x16\x23\x90\xf5\xbd\xf9\xed\x3e\x44\x48\x91\xfd\xee\x37\x10\x8f\xbd\x6c\xdb\x77\x6d\xf6\x75\x33\x71\x02\x80\x38\xa0\x29\x6f\xf8\xeb\x66\x22\xa7\xb5\x98\x98\xcf\x06\x6d\xdd\x7a\xdd\x6c\xfc\xaf\xb2\x60\xb4\xdf\x37\x06\x75\x75\x7d\xef\x8f\xd4\x40\xf8\x73\x39\xd7\x9b\x4d\x0e\x4a\x16\x49\x08\x26\x1c\xfa\x11\xf7\x6e\x90\x7a\x62\xb0\x5e\x77\xbe\x6c\xc2\xee\xb8\xc7\xb0\x63\xbf\x16\x84\x53\x8e\xf8\x5a\x50\x0b\xf9\xe0\xe5\xa3\xce\x57\x91\x53\x47\x60\xba\xd2\x91\xf8\xbc\x1e\xf8\x4a\xd0\x7e\x08\xd4\x9a\xf2\xef\xef\x63\x41\xed\xbe\x0e\xde\x26\x26\x21\x75\x3c\xbe\x80\xee\x9e\xf1\x0e\x8e\xdb\xf6\x49\x1f\x0a\x42\x46\x79\x23\xc8\x5e\x8d\xe8\xcb\x07\xd7\x45\xef\x18\xaf\xf6\xda\x8e\xd8\xea\xf5\x3a\xf5\x4b\x42\x1e\x97\xbd\xeb\x1e\xa7\x7f\x49\xc8\x83\xe3\x1a\xc7\x0f\x13\xd7\xdb\x1e\x00\x9c\x75\xa9\xdb\x92\x76\xe7\xfb\x40\xb4\xd2\x76\xbd\x69\x68\x1d\xaf\xe2\x81\x24\x5b\xaf\xbb\x64\xef\xaf\xbc\x2d\xe5\x9c\x14\xe0\x73\x39\x1f\x2e\x74\xec\xf6\x00\xf7\x5d\x81\xdd\x73\x93\x60\x29\xe7\xe9\x33\x6d\xf7\xfa\x7b\x5f\xfb\x5a\x35\xac\x2c\x0f\xdc\xa7\x25\xf2\x50\x36\xbc\x6d\x5e\xec\x91\x97\xed\x84\xb5\xde\xf0\x11\xcd\x8b\x98\x80\x81\x72\xf2\x7b\x6c\xca\xa1\x7c\xb4\x74\xfc\xb2\x5f\x6a\x79\xce\x8a\x95\x4e\xd5\x9c\x63\x65\xd6\x36\xe9\x98\x2f\x3a\x36\x98\xc1\xc0\x42\x18\xa2\x87\x0a\xb0\x90\x02\xcb\xb0\x74\xc3\x8b\x94\xda\x20\xde\x03\xd5\x52\x5c\x97\xfc\xf9\x11\x14\xd3\x8e\x05\x73\x75\xa2\xfe\x04\xb5\xa5\x73\x47\x06\xcd\xfa\xb8\x05\x7f\x61\x5a\x08\x57\x68\xc1\x26\xa7\xf4\x59\xe1\x8e\xa8\x66\x61\x9f\x9d\xd0\x67\xe5\xcd\x3e\xf0\x5d\x10\xdc\xfe\xbf\xf5\x77\x41\x5a\xec\x76\xbd\x88\x41\x03\x74\xd3\x4c\x72\x21\x17\xbc\x3e\xa5\x8d\x6a\xf8\xa3\x20\xbe\x42\xf0\x7d\x01\x4f\xf7\xd8\xd6\x9e\x1d\x4b\xbe\xbf\xb7\x67\x4d\xfe\xff\xf0\xb4\xcb\x2d\x19\x7a\xc1\x1f\xdc\xee\xa8\xbb\xc7\x7d\xf5\x23\x08\x7a\x9d\x15\xdf\x7a\x44\x34\xb0\xe7\x28\xf8\x5d\x3b\xcf\xf8\x21\x9b\xb1\xdb\xae\xb3\xdd\xad\xd3\xe9\x8e\x76\x0a\xc5\x9e\x8c\xde\xde\x9c\x5e\x95\x4b\xa1\x94\x87\xc8\x56\xef\xcc\xe9\x5f\xe1\xc0\x8d\x0d\xb5\x19\x0c\xa9\x7d\xd7\x5d\x30\x40\x95\x5e\xdd\x77\xdc\x57\x38\xac\x5d\xf8\xab\x7d\x6f\x63\x00\xe5\x23\x4c\x15\x0c\xdb\x2a\x6c\xaa\x3c\xc2\x0c\xf1\xba\xb6\xeb\xed\x98\xa3\xf1\x18\x76\x2d\xd2\x78\x0c\x1b\x0f\xba\x9d\x9c\xea\x9b\x15\x76\xf2\xe7\x9f\xef\xbe\x4b\xb1\xb6\x8d\xf9\xff\xe8\xbd\xa0\xfb\x82\xef\xa3\x81\x65\x6c\xbd\x7f\x17\x88\x6d\xeb\xb6\x88\xf4\xd4\xc8\x7b\xbf\x22\x72\xac\x51\xee\x2b\x5e\xef\xb7\xca\xfd\x9f\xf8\xf2\x65\x98\x6c\x73\xbf\x69\xa6\x3a\xea\x1e\xcb\xdc\xbd\x88\xe5\xfe\x5f\x2d\x51\x2f\x17\x65\x48\x74\xe8\x30\x60\xac\x91\xd5\x56\xd3\x3f\x97\xf3\x6d\x5b\x7d\xae\x71\xfd\x79\x0c\xf6\xb1\x3e\xd6\xa1\x0a\xb2\x25\xf9\xa0\x81\x76\x0b\xe9\x13\xe1\xc0\x25\x1e\x1b\xfe\x75\x00\xb2\xdc\xe2\x5a\x1a\x6c\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x4d\x8f\xe4\x38\x72\xe8\x59\xfa\x15\x31\xc2\x7c\x48\xf5\xb2\x94\xb3\x0f\x78\x0f\xfb\x6a\x50\x0f\xaf\xbb\xba\xe6\x63\x77\xba\xbb\xb6\xbb\x7a\xe7\xd0\x68\xcc\x32\x53\xcc\x4c\x6e\x29\x25\xb5\x48\x55\x55\x6e\xbe\xbc\xf8\xb2\x06\x6c\xc0\x80\x4f\x3e\x18\x0b\x9f\x7c\x35\x7c\xf6\xef\xd9\x31\xf6\x5f\x18\x41\x06\x29\x2a\x53\xca\x8f\x9e\x19\x1f\x0c\x17\xb0\xd3\x29\x8a\x0c\x06\x23\x82\xc1\xf8\xa2\x76\x3c\x86\xab\x32\xe3\x30\xe7\x05\xaf\x99\xe2\x19\x4c\x56\x30\x61\x75\x59\xa4\xf0\xec\x25\xbc\x78\x79\x0b\xd7\xcf\xbe\xb9\x4d\xc3\xf1\x18\x5e\xf1\xba\x29\x0a\x51\xcc\x4d\x07\x78\x10\x79\x0e\xe5\x3d\xaf\x1f\x6a\xa1\x38\xa8\x85\x90\x30\x13\x39\xd7\x9d\x7f\xcb\x6b\x29\xca\xe2\x02\xd6\xeb\x94\x7e\x6f\x36\xde\x0b\x78\xc6\x14\xf7\xdf\xe2\xf3\x66\x13\x86\x15\x9b\xde\xb1\x39\xc7\x37\x37\xe6\xe7\x0b\xb6\xd4\x6f\xc6\x63\xb8\xb5\x73\xc0\xb4\x2c\x14\x13\x85\x84\x25\x57\x8b\x32\x93\xa0\x4a\x58\xb2\x3b\x0e\xa2\xc8\xc4\xbd\xc8\x1a\x96\x03\x2f\xb2\xaa\x14\x85\x92\x30\xab\xcb\x25\x48\x5e\xdf\x8b\x29\x97\x23\x44\xa3\xe6\xef\x1b\x2e\x15\xb0\x22\x83\x9a\xcb\xaa\x2c\x24\x07\xb5\xaa\xb8\x86\x84\x5d\x71\x45\xa5\xe4\x2d\x94\x11\x30\x09\x0f\x3c\xcf\xf1\x5f\x5e\x4c\xcb\x8c\xd7\x12\x01\x20\xbc\x8c\xd3\xf3\xac\xac\x69\xa0\x86\x36\xd2\x0d\x0c\x29\x35\x83\xb2\xa9\x41\x36\x55\x55\xd6\x48\x69\x55\xb3\x42\xe2\x6f\xc4\x4c\xb0\x5c\xfc\x81\x29\x51\x16\x08\x6d\x56\xd6\x4b\xa6\x64\x1a\x86\x62\xa9\x7b\xc4\x61\x10\x4d\x56\x8a\xcb\x28\x0c\x22\x5c\x3b\x7f\x54\xf8\x53\xa3\x21\x8a\xf9\xf8\xf7\xb2\x2c\xb0\x61\xb6\xd4\xed\xa2\x34\xff\x1d\x8b\xb2\x51\x22\xc7\x87\x82\xab\xf1\x42\xa9\xca\xfe\x6e\x6a\xdd\x2c\x55\x3d\x2d\x8b\x7b\xfa\x29\x8a\xb9\x8c\xc2\x30\x88\xe6\x42\x2d\x9a\x49\x3a\x2d\x97\xe3\x79\x79\x7e\x27\xd4\x18\xff\x67\x69\x11\x85\x01\x2b\x56\xd5\x04\xa2\x79\x59\xce\x73\x9e\xce\xcb\x9c\x15\xf3\xb4\xac\xe7\xe3\xaa\x2e\x55\x39\x69\x66\x63\xbd\xfe\xf1\x5d\x51\x3e\x14\x63\xdd\x3b\x0a\x83\xac\xa9\xf5\x22\x4f\x18\xda\x0e\x89\xc2\x80\x2f\x2b\x75\xca\xbc\xd4\x3f\x0a\x83\x99\xe0\x79\xb6\x64\xf2\xee\x84\xd1\xde\x98\x28\x0c\xa4\xaa\x9b\xa9\x3a\x61\xb8\x1d\x10\x85\x81\x12\x4b\x2e\x15\x5b\x56\x27\x0c\xf7\xc6\x44\x61\xf0\x50\xb3\xaa\xe2\xb5\x3c\x01\x40\x3b\x64\x97\xa5\xb5\xc8\x73\x36\x5e\x36\x8f\x51\xf7\x4d\x75\x37\x1f\xf3\xba\x2e\x6b\x2d\x69\x7b\x26\x72\x92\xa7\x5b\xac\xf8\xed\x19\xa0\x7f\x20\x22\xeb\xf5\x39\x88\x19\xf0\xf7\x90\x5e\x95\xc5\x4c\xcc\xd3\x5b\xb7\x13\x22\x96\xe7\x11\x44\x05\x53\x32\x82\xcd\xa6\x8b\x1b\xb6\x9e\x8b\x52\xff\x9b\xce\x51\xc2\x11\x14\x2f\xb2\xcd\xe6\x28\xa8\xf3\xba\x9a\x5a\xa8\x3b\x78\xea\x97\x83\x6f\xc6\x4b\xae\x58\xc6\x14\xdb\x9e\xf4\xe8\x29\x11\x7e\xbb\xe3\x07\xf6\x97\xeb\x60\xd1\xf1\xe6\xc2\xbd\x7b\x02\x00\xec\x1e\x1d\x45\x96\x96\xd8\xf8\xeb\x84\x29\xb0\x7b\x07\xc7\x24\x0c\xc3\x7b\x56\x43\x1c\x06\xdf\xc3\x25\xcc\x96\x2a\x7d\x5d\xd5\xa2\x50\xe6\x59\x2b\xb0\xf4\xaa\x5c\x56\xac\xe6\xa6\x89\xb4\x4f\xfa\x44\x95\xc2\xb4\x74\x96\x99\xbe\xe0\x0f\xaf\x79\x7d\xcf\x6b\xf3\xd2\x68\xb3\xf4\x45\x59\x5d\xe5\xa5\x6c\x5b\xd3\xab\xb2\x5a\x99\x07\x23\xbc\xe9\x77\x35\xab\xc2\x60\x3c\x06\xe2\xa7\x15\x43\xa3\xe3\xb1\xab\x56\x49\xe9\x93\x42\x8f\x6b\x95\x4c\xfa\x8c\x7e\x62\x33\xa9\x8f\xf4\x1a\xff\xc5\x06\xbb\xa5\xd3\xd7\xfa\x07\x36\x79\xdb\x34\xbd\xb5\xbf\xf1\x45\xbb\xfd\xb0\xb7\x28\xe6\xbf\x65\x79\xa3\xd7\xed\xe9\x95\xf4\x4b\xfc\xfd\x9c\xc9\xbb\x30\x09\xc3\xf1\xd9\x51\x7f\x70\x6d\xcf\x24\xb0\x4d\x87\xff\xc6\xfa\x04\xfd\xa6\x00\x86\xe7\xcd\x3d\xaf\x47\x20\xd4\x67\x12\x1a\xc9\x67\x4d\xae\x8f\xa9\x59\x53\x4c\x91\x0a\x12\xd4\x82\x29\x28\x38\x9e\x52\x25\x94\x95\xb6\x0d\xa0\xc4\xb1\x15\xaf\xcf\xed\x31\x80\x00\x27\x4c\x0a\x99\xc2\x97\x65\x0d\xfc\x91\x2d\xab\x9c\x8f\x60\x55\x36\xb0\x14\xf3\x85\x82\x8a\x49\x3c\x22\x3d\x84\x55\x09\xcc\x4d\x64\xe6\xa9\xea\x32\x6b\xa6\x5c\x22\x38\x56\x68\x09\x48\xbf\x66\x45\x96\x23\x8e\x0f\x42\x2d\x80\xb3\xe9\x82\x4e\x7a\x88\xed\xec\x09\x3c\x88\x9a\x67\xd0\x54\x88\x24\x03\x59\xf1\xa9\x98\x89\x29\x54\x4c\x2d\x52\x88\xbf\x51\x08\x50\x48\xa8\xea\x72\xc2\x26\xf9\x0a\x18\x2c\x85\x54\xc6\x4a\x80\x8c\x4b\x31\x2f\x70\xa8\x28\xee\xcb\x3b\x3c\xee\x39\xa0\xb0\x89\x29\x77\x56\x85\x46\x91\x23\x9c\x76\x05\x46\x06\x40\xb4\x94\x4c\x93\x70\x3c\x76\xd4\x9d\xe6\x82\x17\xaa\x4b\x5d\x55\xc2\xb4\xcc\x73\x3e\x55\x9e\x81\x92\xaf\x60\x5a\x16\x06\x1c\xcf\x3c\x73\x45\x14\xb8\x20\x04\x28\x45\x31\xcf\x8d\x61\x62\x68\x25\x90\xc2\x4b\x8e\x78\xf8\xf8\x8a\x42\xf1\x7a\xc6\xa6\x7c\x88\x13\x08\xcc\x4d\xd6\x6f\x24\x35\x38\x59\x6b\x95\x68\x63\x01\x37\xe0\x15\xad\x67\x5a\x2e\x27\xa2\xd0\x74\x5a\x12\x8a\x1e\x63\x47\x64\x4a\xa9\xa6\x2e\x40\x28\xa4\x2b\x22\x38\x65\x79\xce\x6b\xb4\x98\x98\x45\x36\x0d\xf5\x72\x76\x08\xba\x0e\x83\x37\x85\x5b\x1f\xcf\xd6\xeb\xd4\x8e\x30\x26\x20\x69\x82\xf5\xba\x66\xc5\x9c\xc3\xc7\x02\x2e\x2e\xc1\xf5\x79\x6e\x58\x86\x7a\x6c\xbd\xfe\x58\xd0\x18\x3b\x0b\x00\xb8\xa5\xa6\xb6\x31\x5c\xaf\x8d\x72\x35\xd6\xa5\x6d\x96\x87\xa7\x40\x01\x86\xd8\x5b\x44\x02\xde\xa4\xf1\x54\x3d\x02\x59\x69\x78\x34\xe0\xbf\x23\x14\x98\xb3\xf5\xfa\xab\x12\x11\x83\x8f\x45\xfa\xca\x98\xa0\xb7\xab\xca\x2e\x30\x81\x78\xab\x87\x31\x4c\xbd\x2e\x23\xa3\xe0\x12\x58\x87\x81\xb5\x5b\x75\x1b\x22\xca\xd3\x9e\x95\x23\x32\x38\x79\x12\x06\x78\x58\xd5\x35\x7c\x74\x09\x85\xc8\x11\x42\x40\xfc\x2a\x44\xae\x81\x84\xc1\x26\xb4\x6d\x16\x7a\x7a\x10\xa7\x64\x84\xf0\xc2\x8d\x23\x27\x12\xf3\x39\xbb\xf3\xc8\x13\xae\xd7\x7a\x23\x7f\xac\x38\x22\x9a\x6e\xb0\xf3\x39\xf8\x54\xfe\x58\xf1\x21\x42\x23\xac\xbe\x95\x49\x24\xba\xe2\xbd\x62\x92\xec\xb2\x1b\xd6\x6e\x71\xc8\xbf\x7e\x2e\x59\xc7\xc0\xed\xa8\xf5\x26\x81\xd8\x12\xc3\x6f\xd6\x14\xf3\xd8\x11\xd4\xfc\x3d\x2e\x84\x20\xa4\xf1\x21\x6e\x87\x41\x70\xef\x78\x27\x7d\xde\x21\x6a\x1a\x95\x24\x0c\x7a\xb8\xb6\xcb\x36\xe4\x9b\x6d\xbd\x37\xec\x08\x50\xac\xdb\xb3\xd9\xe7\x0d\x1e\x8e\x4f\xf2\xfc\xfa\x71\xca\x2b\xa5\xcf\x29\x69\x54\xac\xa3\x94\x3e\xa1\xd0\x65\xa1\xbd\x69\x5f\x48\xd0\x6c\x64\x08\xc5\xb3\x09\x1c\xa9\x9f\x8b\x2c\xcb\xf9\x03\xab\x8d\x17\xf8\x46\x5a\xbf\x10\x9d\xa0\xaa\xca\x57\xa8\x62\x50\x6d\x2a\x04\xbe\x74\xbd\xb5\xd7\xc5\xef\x79\xbd\x72\x6c\xc3\xfd\x82\x1a\x84\xdc\x36\x0d\xef\x65\x85\xa7\x06\xcb\xf3\xd5\xc8\xf5\x93\x30\x65\x05\x4c\xb8\x3e\x6b\x78\x86\xc3\x26\x2b\x28\x90\xec\xaa\xc4\x76\xfe\x38\xcd\x9b\x8c\x67\xc6\x0b\x9c\x70\x44\x01\xd7\x5c\xf1\x2c\xdd\xa1\x46\xdc\xe2\x34\x82\xe8\xb5\x62\xaa\x91\xd1\x08\xa2\x1b\x51\xcc\xa3\xc4\xed\xfb\x33\x47\x90\x64\x70\xbc\xc3\xd0\xa3\xca\xa8\xc5\x26\x4d\x53\xa9\xcd\x02\x2d\x3c\xa2\xa0\xe6\x8b\x4b\x58\xb2\xea\xad\x79\xf5\xce\x90\x7f\xbd\x41\xf1\xda\xde\x30\x3d\xbb\x25\x08\x82\xc8\x13\xa3\xe8\x02\xd6\x9b\x51\x18\xf8\x66\xe4\x26\x0c\x03\x3c\xeb\xbf\x47\x54\x10\x8c\x01\xe9\xd0\xc2\x99\xc4\x0c\xbe\x1f\x41\x79\x87\xaf\x2d\x62\x6f\xf9\xe3\xbb\x2f\xe0\xa3\xf2\x0e\xb1\x0d\x82\x8a\x15\x62\x1a\xb7\x16\xde\x2c\x8e\xae\x2d\x08\xbb\x6e\xf8\xec\x13\xf9\x19\x64\x25\x97\x50\x94\x0a\xf8\xa3\x90\xea\x0b\x90\x9c\xfb\x8c\x77\x3e\xa5\x36\xe9\x11\xa9\x24\x21\x79\xce\x78\xce\x15\x8f\x2d\x06\xfa\x5d\xbb\x00\x51\x4c\x5b\xf4\x6d\x1f\x38\x9e\x50\x62\xa6\x41\x5c\x5e\x42\x87\x64\x1a\x42\x10\xf4\xaa\x52\xb8\xf4\x30\x8f\x7b\xbb\x20\xee\xc1\x66\x9b\xe4\x66\xdb\x7d\xcb\x26\x3c\xe7\x59\x2b\x0d\x26\x84\x32\xe7\xca\xca\x2e\xca\xbb\xa3\x9e\x16\xe1\x87\x05\x2f\xdc\xdb\xd2\x13\x57\x02\x66\xa4\x6e\x64\x76\x19\x6d\x84\xc6\x74\x06\x13\x97\x61\x26\xb8\x23\xa6\x68\xd4\xd4\x62\xaa\xcd\xac\x76\x19\xf0\xb0\x10\xd3\x85\xde\x43\x92\x17\x7d\x28\xd0\x49\x4e\xa3\xad\x1d\x53\xd6\x74\x8e\xef\xae\x0a\x37\x49\x6c\x04\x78\xb4\xab\x85\x7b\x14\x73\x38\xb4\xae\x0f\xd6\x4d\x3b\x48\x8d\x68\x9d\x9a\xe2\x35\x9f\x72\x71\x8f\xaa\x89\x9b\x25\x96\xb3\xce\xba\x53\x78\xcd\xb9\x03\xe3\x41\xd1\x2f\xac\x21\x4a\x08\x5f\x3f\x22\xa2\x28\x91\x19\x57\x4c\xe4\x12\xed\x64\xbb\x9d\x10\x88\x35\x76\x59\x2e\xd4\x2a\xdd\xa7\x42\x3a\x6b\x8f\x97\x3f\x82\xa2\xff\xad\x67\xfe\xeb\xe8\x99\xce\xb0\x11\x9c\xa4\x76\x8e\x0f\x50\x1c\xeb\x7a\x7e\xf5\xea\xe6\x0a\xd7\xc9\xeb\x93\x7d\x4f\x34\xe3\xbc\xe1\x18\xae\x95\xad\x31\xe0\xf8\x03\xec\x9e\x89\x9c\x4d\x72\x6e\xdc\x86\xf9\xab\x9b\x2b\x18\x70\x06\x68\x3b\x75\x21\x3b\x0f\x51\xb6\xba\x61\x04\xa5\xb6\x1d\x24\xee\x87\x4e\x2c\x46\x8b\x37\xaf\x8d\x69\x91\x0c\x4d\x84\xec\x92\x5e\x47\x89\x32\xf1\xf6\xdd\x30\x24\x94\xde\xbe\xb7\x4f\xf9\xac\xac\x79\x8c\xd8\x3e\xa7\x98\xd2\x6d\x49\xd6\x67\x32\x42\xae\x6d\xcd\x73\x89\x86\x13\x2f\xb2\xb8\xd3\xec\xd6\x93\xa6\x69\xa2\x03\x1d\xeb\x35\xdc\x96\xdf\x96\x0f\xbc\x6e\x05\x11\x49\x85\xcc\xb5\xa6\xe1\xa7\x88\x11\xbe\xe4\xf5\x1a\xdd\xa4\x83\xd2\xbb\x5e\x5b\x98\x4e\xe4\x2e\xa0\xbb\x2c\x17\xa2\x89\x51\xa0\x1d\xe9\xfb\xa4\x14\x4d\x91\xe0\x99\x8e\x94\xe3\xfa\xbd\x1e\x64\x1d\xeb\x0e\xd7\x45\x6f\x07\xf2\x75\xb0\x47\x87\x12\x69\x9a\xe2\x30\xa4\xdd\x96\xf0\xa3\xf2\x6d\x17\xbc\xed\x3a\x3b\xe3\xbc\x9f\xdf\xce\xd0\x37\xa7\x9c\x07\xe7\x67\x70\x57\x77\x88\x0c\xb0\x45\x65\x8a\x87\x78\x06\x3d\xb9\x59\x14\xa8\x40\x55\xeb\xe1\xa8\xca\x76\xb9\xc7\xaf\xf4\x20\xaa\x7a\xb3\xc5\x12\xce\xda\xa9\x92\x16\xfc\x01\xff\x17\xdd\xa3\x9f\xd6\x01\xfe\x1e\x7d\xa4\xaa\xe3\x42\xed\x50\x52\xaf\x42\x4b\x93\xef\x54\x9d\xe8\x09\x57\x1f\xe8\x04\x13\x85\x8d\xc8\x1f\x26\xef\x78\x0c\xfb\x76\x07\x08\x54\x87\x4e\x26\x74\x8c\x38\x35\x03\xa8\xc7\x97\xc8\x1f\x1d\x27\xc2\x9c\x0e\xaf\x95\x34\x61\x24\x52\xa1\xbb\x62\x66\xbd\x5d\x0c\xe6\x60\xac\xaa\x3e\xcf\xca\x25\x13\xc5\xbe\xce\x29\xdc\xd4\x62\xc9\x6a\x91\xaf\x6c\x78\xcb\x8f\x85\x19\x8d\xbc\x6f\x1d\xf1\xf7\xbb\xc2\x81\x6b\x79\xc5\xdf\xb7\xc2\xa8\xdd\x6e\xef\xa9\x1b\xf8\xd0\x8e\x36\x8d\x39\xc6\xd1\x76\x9c\x7c\xbf\x87\x4d\xd7\xc5\xd1\x6c\xda\xab\xa3\x7a\xf9\x64\x46\xd8\x2e\x43\x8c\x3a\xcc\x02\x9a\x42\x33\x6c\x0f\x5b\xab\x7c\x75\x14\x9f\xf6\x2e\xa4\x8f\x51\x7d\x91\x90\x7d\x9c\x92\x15\xb2\xca\x8e\x3a\x62\x1f\x79\xcc\x92\x55\x1f\xb7\xbe\xe6\x39\x86\xd5\x43\x23\x68\xbd\x07\x69\xbf\x02\x5a\x66\x60\xd3\x38\xe9\xf3\x67\xc9\x76\x07\xc4\x17\xd5\xe8\xdd\x08\xee\x5b\x8b\x6f\xe9\x4c\xd5\xfb\x4e\x08\x46\x67\xa3\x39\xdc\xf1\x95\x66\x77\x86\x36\xed\xa4\x54\x0b\xa4\xb1\x9d\x85\xf2\xb8\x10\xdf\x25\xe4\x7e\x60\xd7\x3c\x87\x1c\xf9\x45\x50\x18\x39\x5d\x3a\xdc\x7a\xc5\x8a\xb2\x10\x53\x96\x7f\xcd\x59\xc6\xeb\x5f\xf3\x95\xf5\x4d\x70\x22\x59\x52\x10\x58\x91\xab\x67\x41\x4c\xa7\xdc\xc6\x3e\xb8\x50\x0b\x5e\xd3\xcc\xf8\x1e\x49\x71\xe9\xd6\xfa\x9d\x50\x0b\x9d\x87\x40\x12\x8d\xf4\x5a\xdf\x7e\xfe\x2e\x39\xd8\x71\x00\xbb\xf8\x2e\x69\x21\x90\xd5\x4f\xec\x9b\xaa\x47\x7d\x06\x5b\x1b\x70\xff\x9f\xe6\xa3\x89\x34\x9f\x6c\x57\xbe\xe0\x0f\xde\x68\x33\xbd\xce\x3a\x50\xe8\x08\x26\x6c\x7a\x87\xec\x59\xd9\x3d\x63\x42\xf4\xb8\xd6\x82\xeb\x8c\x47\x0a\xdf\x28\xe4\x23\x05\xfb\x49\x5c\xc5\x44\xa0\xcf\x66\x59\x40\xb1\x6c\x55\x42\x26\x58\x6e\x02\xde\x39\x53\xbc\x86\x29\x66\xa3\xd0\x09\xe7\x3e\x4c\x23\xa0\x1d\xec\x62\x7c\x6d\x8e\xcf\xd4\xe0\x7b\x55\x16\xc5\x1e\xe3\xd4\x74\xb2\xc6\x69\x3c\x60\x9d\xfa\x5b\x0e\x2d\x84\xed\x58\x6b\xe0\xb5\x56\x77\x73\xdc\x69\x36\xe4\xda\x2d\xb2\x08\x76\xbd\x1a\x3f\xc0\xda\xea\xc0\xe0\x9e\xd5\x7d\xaa\xc7\x9a\x7a\xbb\x2e\x69\x18\xac\xfb\x0d\x4a\x37\xe4\x72\xd7\xb2\x24\xaa\x69\xf1\x44\x42\x91\xe7\x59\xd6\x1d\xb4\x90\xfb\x38\x3d\xc4\xc6\x47\x84\xe8\x13\x99\x7e\x22\xa3\x76\xb1\x7e\x6f\xec\x99\xa0\x2b\xe5\x01\x13\x2d\x0c\x87\x57\xb4\xcf\x1a\x6d\xcd\xd5\x67\xfc\x90\xb9\x7a\x40\xe3\x99\x10\x5d\xd0\xda\xf3\xf8\x98\x38\xba\xc5\xda\x17\xd5\x8c\x21\xdb\xb6\xfd\x65\x7f\xb8\x4d\x67\x07\xc9\x83\xe6\x3d\x9c\x13\x28\x87\xb3\x1d\x7b\x81\xb9\x92\x3d\x7c\x1a\xb5\xf3\x06\x1b\xab\xa0\x51\x31\x23\x0d\x80\x76\xe1\x8f\x37\x79\xf6\x9c\xa5\xcf\xf8\x31\x67\xe9\xfe\xd3\xf1\x58\x93\x87\xce\xad\x81\xb3\xd4\x28\x12\xda\xe9\xcf\xf8\x89\x67\x29\x2e\xe6\x95\x46\xe6\xc8\xc3\x14\xbb\x3a\xc3\x07\x8f\xf8\x93\x8e\xd3\x2a\x5f\xf5\x9d\xa7\x3e\xdb\x7e\xbc\x09\x34\x6c\xa9\x5e\x17\x47\x58\xaa\x87\x19\xe2\x19\xac\x7b\x38\xbc\xd7\x52\xed\x70\x6d\xdf\x3a\xfa\x0d\x20\x5a\xe2\x71\x2c\x3b\x35\x25\xb4\xdf\x52\x25\x2c\xf4\x09\x2e\x6f\x4b\xdf\xf8\x31\x3b\xa5\xef\xf4\xa0\x79\x70\x9f\x18\x41\xdd\x03\x25\xbe\xe3\x2b\x09\x6f\xdf\xd9\x90\xe1\x01\x78\x47\xa5\xd4\x96\x19\x9c\x1d\x32\xbc\xf4\x79\x52\x31\x51\xb7\x93\x87\x81\x0d\x20\xde\xb5\xe6\x98\x46\x6f\x4d\x71\xb5\x7b\x1b\x3c\x9c\xaa\xc7\x54\xd3\x24\xbe\x4b\x52\x0a\x94\x26\x5f\x80\x0d\x22\x06\x06\xb0\x8b\xa4\xe8\x47\x63\xfc\xb8\xc0\x19\x2a\x51\x84\xa9\xdf\x75\x2c\xbd\xb3\x65\x86\x01\x39\xbb\x80\x5f\x95\xa2\x88\xcf\x96\xd9\xa8\x6d\xba\xc1\x31\xb1\x1e\x89\xe1\x98\xc4\x82\x23\xca\xa0\x25\x44\xd1\x38\xc3\xc9\x63\x63\x6d\x5f\xdf\xde\xde\x90\x6f\x62\xdb\x0e\xff\x8d\xc3\x50\x27\xfa\x0d\x95\x0b\x2d\x5e\x70\x09\x11\xab\xaa\x5c\x4c\x75\x69\x8b\xae\x16\xfc\x02\xa6\x0b\x56\x4b\xae\x2e\x1b\x35\x3b\xff\x65\xe4\x42\x74\x38\x2b\x85\x1b\x28\x9f\x8f\x82\xb5\xa0\x16\xbd\x67\x0f\x87\xee\x10\x58\x59\x40\x55\xf3\x8c\xcf\x44\xc1\x33\x5d\x95\x21\x69\xcf\x6d\x4d\x73\x30\x60\xd7\x2d\x0a\xea\x06\xec\xfc\x72\x11\x6b\xff\x88\x19\xa4\x1a\xbe\x76\x15\x3c\xbd\xb5\x15\x3b\x42\xd9\x79\xfb\x6e\x18\xba\xe6\x7f\xdf\x6b\x8a\xe2\x99\x39\xd0\x16\x96\x9d\x20\x5e\xff\xa0\x6b\xd4\xe4\x46\xdd\xd4\x31\xf7\x1e\x86\x87\x3c\x99\x29\x5e\xc7\xdb\x6f\xd4\x55\xcb\xda\xd8\x63\x73\xa2\x01\xed\xae\xf2\xa8\x10\x22\x45\x96\x74\xb8\x70\x89\x84\x59\x36\x8f\x68\x82\xbd\x2a\x1b\xc4\x21\x09\x3d\x8b\x82\x32\x20\x17\x97\x83\x64\x76\x5d\x27\x58\x6b\x52\xcc\x11\x20\x0d\x4b\x9f\x9a\x26\x8a\x8f\x2f\xed\x38\x1d\xe8\xa6\xee\x58\x15\x3c\x81\xff\x0f\xb7\xe5\x1b\xac\x7a\xdc\x6c\xa2\x24\xbd\x61\x6a\xd1\xe9\x83\x0d\xb7\x7c\x59\xa1\x0d\xae\x7b\x58\x71\x1a\xa8\x21\xd3\x01\xca\x6e\x84\x92\x30\xda\x31\x70\x9c\x5d\x87\xcb\xf3\xa6\xd4\x19\x1a\x77\x3c\x98\x8e\x86\xa3\xd8\xf1\x2b\x93\x68\xb3\xc7\xb0\x79\xdd\x17\xac\x0c\x74\xee\xa1\x8d\xe5\xf9\x3f\x49\x69\x2c\xc9\xa8\xf2\x85\xc6\x64\xf4\xb4\x97\x62\xcc\x02\x9b\x9b\xb3\x33\x7e\x87\xef\xeb\x11\x7a\x3a\x19\x9f\xb1\x26\x57\x78\xda\x19\x01\xc1\x1d\xa9\x43\x99\xe5\x0c\xb6\x75\xc1\x08\x18\x4c\xca\x4c\x3b\x9b\xa8\x1b\x8c\xab\x80\x2e\x67\xa4\xe7\x89\x9c\x97\x7a\x8f\x5a\x16\x41\xe9\xf6\x54\x63\x17\x27\xc6\x17\x62\x20\x75\xbe\x1c\x90\x1e\x08\xea\x7f\x7d\xfe\x79\x0a\xdf\x50\x6e\x0d\x7b\xfa\x31\x58\xb3\x6f\x78\xad\xcb\xb1\xb1\x47\x55\x97\xf7\x02\xdd\xe8\x85\x7e\x83\xa5\x06\x79\x8e\x09\x7c\x8d\xad\x49\x69\x62\xbf\xd6\x26\xf3\x41\x23\x14\x0f\x3a\xae\x22\x7d\xce\x6a\xb9\x60\xba\x8c\xcc\xe2\xbf\x34\x4d\x58\x03\x20\x9b\xe9\x94\xf3\x4c\x1a\xbf\xed\x57\xaf\x5f\xbe\xa0\xaa\xee\xcc\x96\x60\x5b\xc7\x4f\xaf\xd5\xa1\x83\xe9\xd5\xe1\x65\x99\x92\x01\x2c\xaa\xaf\x47\xd6\x9d\x74\x2b\x6b\x5f\x76\xa0\x81\x28\xa4\xe2\x2c\xb3\x34\x33\x4a\xd2\xd7\x10\x7d\x86\x88\xab\x3e\x19\xc1\x83\x29\x9a\xeb\x8a\x81\xb6\x19\x91\xab\x23\xf8\x1e\xb7\x9f\x4f\x12\xa3\x7e\x30\x83\x59\xf1\x7a\xad\xb9\x78\x81\x6b\xb1\x0c\x45\x4b\x44\xcc\x2c\xb5\x90\x80\xe6\xa0\xc5\x2e\x71\x97\xb6\xed\x39\x2b\x66\x80\xaf\x9e\xea\x29\x69\xe8\xb5\x09\xcd\x3a\x40\x76\x1c\x92\x3b\x4e\xbe\xb0\x33\x60\xb7\x4b\xef\xcc\x45\xb4\xe1\xd2\x81\xb3\xc1\x85\xe0\x21\x35\x62\x13\x27\xe9\x6b\xae\xe2\x88\x14\xe1\xf9\xed\xaa\xe2\xd1\xc8\x3f\xf2\xcc\x02\x16\x56\xc8\x7c\xfc\xbb\xea\xc1\xca\x61\xbb\x0e\xb4\x3a\x3c\x93\xc3\xc2\xa0\x9e\x32\xd6\x84\x0d\xb6\x71\xb9\x1b\xf5\xf4\x4c\xbf\xe2\x2a\xbe\xb3\x99\xc6\x4d\x18\xe8\xad\x71\x61\xca\x5c\x53\x23\x0e\xdf\xa0\xe9\x58\xb0\xdc\x3b\x24\x34\xee\x72\xba\x07\x6b\x4f\xcc\x5a\xc4\x35\xf0\x4b\x90\x53\x82\x8c\xaf\xc9\x7d\x7c\x48\xb5\x50\x10\xc6\xd8\x31\x71\x8d\x31\x52\x3b\x41\x7d\xd3\xca\x9d\xf1\x65\xea\x78\xd2\xcc\xe0\xed\x3b\xac\xdc\x4d\x48\xd6\xd7\xa1\xb6\xd5\x1e\xc0\x17\x21\x17\x51\xb7\x72\xf6\xa6\x20\xce\x22\x84\x11\x7c\xfa\x90\x7c\xb1\x1d\x71\x37\x56\x8a\x14\x7f\xe0\x70\x09\xbf\xfc\xc5\xff\xf9\xdf\x46\x84\x72\x5e\xe0\x98\x04\xfe\xaf\x79\x87\x5d\x03\x44\xe3\x12\x26\xcd\xec\xed\x05\x36\xbe\xa3\x63\x8e\x74\x25\x96\xa1\x68\xba\xcd\xe2\xc8\x6a\x07\xc0\x45\xe9\xcc\xf0\x05\x06\xcb\x30\x31\x5c\xa1\xb9\x03\x45\x59\x9c\xa3\x5c\x39\x43\x1e\x3b\x46\x23\x04\x4e\x59\x5f\x82\x4a\x95\xc4\x2f\xf8\x43\xfc\x60\xf6\x85\xa6\x91\xd6\xa1\xfe\xda\x6d\x1d\xc2\x3a\x0c\x74\x2f\x7c\x46\xfd\xf2\x3b\x9c\xe5\x82\x14\xe8\xef\x48\x9d\x23\xdf\xa9\x17\x53\x42\xce\x04\x5e\x38\x59\x70\xa7\x0d\xb5\x22\xf5\x98\xdb\xba\x19\x12\x84\xbe\x1b\x62\x2f\xc8\x1c\x53\x00\x9e\x9a\xe4\x95\x37\xa9\x43\x55\xa3\x85\x97\x1a\xec\x54\x38\x53\x18\x58\xdd\x0b\xe0\x97\x07\x38\x93\xdc\xca\x48\xbc\x68\x81\x26\x9e\xce\x8b\x13\xe8\x16\xda\x2d\xd2\x76\x86\x81\xd1\xed\xb6\xc2\x46\xda\x3b\x1d\x10\x84\x54\xd8\x89\xd6\x6f\x47\x18\x0e\xda\x24\x5e\x60\xeb\x80\x51\xe2\x82\x12\x7b\x4f\xff\x6d\x27\x57\x63\xdf\x9f\x8e\xd1\x09\x5a\x73\x45\x08\xc7\xa0\xf2\x3b\xa7\xb3\xc6\xf7\x5f\xed\x3c\x37\xac\xe6\x85\x22\x9f\xd0\xc9\xa9\x2e\x5f\xc3\xe3\x08\xb1\xb2\xad\x1a\x32\x4a\xf0\xa1\x68\x7f\xe0\x85\x28\xf6\x2e\xab\xd7\xe7\x85\x33\x3a\x60\x74\x97\x61\x7f\x37\xc8\xf8\x8c\xd7\x50\xa7\xa8\xb5\xd3\x2b\x0c\x8b\xa2\x02\xd2\x1a\x03\x7d\xe1\xd6\xfd\xdd\x5a\x2b\x41\x46\xcd\x8d\x46\x10\x6e\x78\x97\xd7\xa3\xaa\xff\x57\x9c\x65\x4f\xf2\x3c\x36\xc0\x8f\xab\x8c\xb4\x57\x01\x66\x78\xe0\x8d\x20\x22\x4d\x50\xe3\x61\x6b\x0d\x1e\x5c\x99\x25\x67\x44\x9a\x7a\x4b\x11\x7d\xae\xd7\x16\x34\x56\xa9\xa1\x6b\x74\x71\x09\xee\xea\x4b\xab\xee\xc8\xce\xd3\xdd\x83\x27\x79\x5e\x3e\xdc\xb0\x5a\x09\x96\x63\x54\x4d\xd5\x0d\x19\x85\xcf\x84\x9c\xb2\x3a\x7b\x53\xe8\x6b\x4a\x17\xed\x1b\x5b\x32\x82\x4b\xbf\x04\x7f\xc2\x1d\x95\x8a\x99\xcc\x1d\xa5\xda\xaf\x56\x87\x15\x6b\xaf\x6a\x25\x34\x3a\xc4\x74\x1b\x76\xdd\x43\x56\xa2\xde\x07\xe9\x5c\x43\x90\xc0\x3b\x10\x9f\xb2\x8c\xc4\x81\xde\x21\x02\x2d\x5a\xce\x5b\x47\x8f\xf2\x86\xd5\x6c\x29\xad\xbb\xf2\x5b\x56\xcb\xb8\x46\x1e\xe2\x55\x90\xf6\x3d\xfa\xf6\xef\x1b\x5e\xaf\xda\xee\x75\xfa\xe6\xd5\xb7\xe9\x6f\xb0\x31\xb6\x03\xbc\x2e\xa1\xef\xc3\x98\x6a\xd8\x8b\xcb\x56\x6a\xf5\xad\x0d\x72\x60\x74\x8d\x4d\x61\xbb\xa5\xdf\x96\xc6\xb0\x86\x48\x2f\xd2\xf4\xc1\x38\xab\x86\x92\x7e\xc5\x0b\x3d\xa9\xe3\x26\x7a\x37\xfd\xe1\xdd\xfd\x28\xbc\x2c\x78\x39\xdb\xc1\x83\xbf\xdf\xc5\x43\x2f\xeb\xc7\x20\xe2\xb6\xd5\xa7\x35\x7f\xdf\xa6\xc7\xc9\x69\xd1\x91\x64\xdb\xb5\x8d\x0c\xf6\x38\x44\xbd\x1a\x73\x28\x31\x6a\xf4\xa3\xb4\xde\x81\x3b\xd7\x99\xd4\xfa\x73\xdb\x1b\x30\xbe\x51\x7d\x42\xd2\xb3\x07\xc1\x3e\xdd\xd7\x6b\x5b\x0f\xe5\x41\x9d\x89\x34\xa4\x28\x9e\xef\xa8\x89\x6d\x25\xe1\x74\xc1\x1b\xc9\x6f\x50\xc1\xa0\xbe\x94\xbe\xfa\x78\x23\xf9\x75\xd1\x2c\x5f\x34\xcb\x09\xaf\xe5\x45\xfb\xe2\x7a\x29\xd4\x9b\xa2\x2a\xab\x06\x5d\xe2\xcc\xa9\x95\x4d\xd8\xd1\xa7\x2d\x6e\x16\x1d\x57\xdf\x9e\xc6\x1a\xd5\xf4\x39\x97\x92\xcd\x79\xb2\xaf\x54\xc2\x8a\xc1\xf7\x23\xd2\x56\xce\x9c\xd4\x96\x94\xd7\xcb\xcf\xdb\xba\x72\x48\x49\xc6\x40\x5f\x0c\xa5\x3f\x8e\xb8\x73\x0a\x0d\x25\x70\x5b\xdb\xdd\x9a\xe2\x5a\xd9\xed\x4b\xd9\x22\xe0\xdd\x74\xed\x82\x49\x58\xb0\xcc\x8c\x1d\x4a\xd0\xea\xb4\x60\x86\x55\x9f\x02\xa3\xc2\xad\x7c\xfb\xf7\x85\xd5\x82\x1b\x28\xc6\x90\x92\xa9\x3d\xf4\x5d\x5e\x18\x85\x19\xa3\xad\x2e\xac\x68\xd1\x21\x27\x14\xbd\x71\x59\x1a\x20\xdd\x2c\xf0\xde\xfc\xef\xde\xac\xee\xdd\xc8\x51\xc8\xf3\x54\xf6\x0e\xd9\xc2\x5f\x27\x80\x77\x61\xa0\xf2\x42\x72\x37\x05\x6f\xef\x65\x4d\x17\xa8\xcb\x52\xfd\x86\xe5\xb2\x04\x96\x65\xb4\x87\xb5\xb6\x87\xa6\xce\xc3\xfd\x69\xe8\x88\xba\x9e\xe3\xed\xe5\x11\x29\xf1\x1b\xa6\x16\xc9\xa1\x81\x8e\x2b\x58\xcd\x8f\x32\x87\x4a\x24\x4a\x3e\x38\x5f\x8d\x20\x28\x69\x62\xdb\x4e\xc8\x57\x7b\xa3\xdb\x10\x6b\x4f\xba\xba\x00\xec\x49\xda\x0b\x72\x71\x8f\x56\x2b\x53\x44\xb5\x65\xa9\x74\x7c\x01\xc3\x07\xac\xc0\xcb\x5f\xdf\x61\x25\x7f\x65\xae\x99\x99\x36\xd4\x93\xd3\x72\xc9\xcd\xed\x87\x76\x92\x4c\xc8\x29\x5e\xde\x5f\x81\x5c\x49\xc5\x97\x23\x90\xba\xbc\x3c\x17\x77\x3c\x5f\x59\xa1\x43\x31\x82\x68\x51\x4a\x75\x81\x12\x1d\x91\x02\xed\xac\x20\x76\x53\xd9\x0a\xe5\xc1\xc8\xed\xe9\xd9\x6c\x31\x83\x8f\xac\xc8\x7d\xcd\xe4\x4d\xcd\x67\xe2\xd1\xcd\x38\x82\x08\x77\x65\x64\x3c\x72\x87\xc7\xa5\x69\xbe\x18\x8f\x23\xf8\x1f\x8e\x12\x28\x95\x41\xe3\xb4\x60\x53\xe7\xe9\x0d\x5a\x27\x0e\xda\xd1\x75\x61\x68\x5c\x34\x21\x5d\xff\x45\xcf\xb2\xc7\xe3\xa0\xfc\xaa\xb9\x27\x11\xbd\x28\x0d\x23\xbd\xf0\xb6\xa9\xd8\xd7\x04\x31\xc1\x20\x04\xf4\x50\xd6\x77\x23\x30\x21\x73\xa0\x93\x1e\x1d\x3f\xbc\xc8\x57\x1b\x7b\xd3\xbc\x15\x48\xc2\xa8\x0d\xdb\x62\xc1\x59\x70\xbc\x2f\x14\xac\xd7\x20\x66\x3b\xce\x0f\x21\x8d\x6f\x75\x04\xd0\x1a\x1b\x08\x49\x14\x19\x7f\xdc\x1d\xf1\xb9\x1d\x43\x15\x01\xdb\x5e\xc5\xbe\x82\x00\x34\x36\xf4\x7f\x83\x3d\xe3\x7a\xae\x04\x7b\x55\x01\x54\x89\x3e\x18\x36\x26\x0b\x32\x98\x96\xd5\xea\xcd\xab\x6f\xe3\x66\x04\x7e\xff\xa7\x4c\x72\x54\x1f\x18\x3e\xb6\x5d\x5b\xeb\x60\x17\xab\xae\x5d\xda\x8d\x11\x13\x65\x7a\x0a\x00\x76\xb2\xfb\xc1\x76\x82\xdf\xda\xb6\x2d\x37\x3b\xbf\xdb\x9f\x4e\x5d\xf5\x66\xfa\xf7\xf2\x1d\xce\x7f\x2e\xce\x0f\x05\xd2\xa9\x92\x60\x9b\x88\xf6\x35\x15\x47\xec\x5d\xaf\x57\x61\xa0\x35\x8f\xe5\xe3\x84\x49\x0e\x67\xb8\x87\xdf\xbc\xfa\x76\xa4\x93\x4b\x74\xb4\x26\xae\x19\xf7\x6f\x81\x76\xc1\xc5\x25\x9c\xe1\x00\xf3\xa8\x13\x09\xe4\x1e\x38\x72\x7e\x8a\x6f\x28\xc0\x70\xa5\x1e\x6d\x6a\xf4\x35\xda\xb7\x53\x5d\x3b\xdf\xd4\x14\xaa\x41\x71\xb4\x1b\x57\x95\x50\x35\x79\xae\xdb\xe9\x9c\xe3\x19\x5a\x18\x12\xca\x06\x8f\x6e\x6b\xbe\xd2\xb1\xa4\xc3\x3b\x74\xec\x2d\xad\x09\xeb\x3b\xa0\x68\x2b\x50\xb8\x23\x05\x78\x51\x2a\xba\xf7\x8b\x20\x11\x96\xd6\x14\x0b\x76\xcf\xc1\x7e\xcf\x63\xbf\x49\xa2\xe7\x99\xe8\x6c\x15\x5d\x7d\xd3\xb7\x7c\x50\xf3\x5b\xd4\xf0\x16\x35\xc5\xf7\x99\x2d\x82\xd2\xb6\x07\xae\x6a\xe5\x02\xd5\x2e\xb5\xe7\x5f\xcc\xe3\xb5\x3b\x70\x29\xb5\xdc\xa5\x9d\x49\x27\x7b\x57\x50\x86\xcf\x03\x3f\xe2\xd3\xd3\x89\x32\x6e\x7b\x2e\x6e\x1e\x61\x1d\xfe\x64\x09\x65\x67\xf1\x50\xe4\xd7\xcf\x23\xbb\x33\xc3\xe4\x7d\x13\x94\x2a\xa4\x35\x6a\x94\xa1\xf2\x98\x83\x0a\x7b\x3b\x24\xd5\xab\x6c\xf6\x46\xa4\xb6\xfd\x2b\x0a\x47\x19\x6b\x6c\x3b\x24\x65\xa3\x34\x34\x8d\x1d\x6d\xc2\x33\xad\xef\xb3\x1d\x92\xa2\x66\x74\x7c\x8d\x99\x47\x59\x12\xf7\x06\x0d\x6a\xa6\xc3\x01\xff\xf3\xf3\xcf\xfd\x74\xd1\x08\x1e\x28\x27\xa2\x03\x9e\x55\xcd\xd1\xc8\x61\x7a\x3f\xb0\x42\xc3\xd2\x46\x81\x16\x54\xa6\x14\x7e\x99\x01\xf7\x8f\x59\x85\xbf\xff\x28\x80\x0d\x4b\xe3\xc2\xb4\x38\x5a\x24\x0e\x86\xcc\x6c\x79\x48\x4f\xc8\xac\x97\xec\xfb\x23\x66\x66\xd2\xd3\x43\x66\xa7\x44\xc0\x2e\xb1\x4b\x7a\xfd\xf2\xcb\xc1\x20\x18\x46\xb1\xdb\xd8\x38\x0a\x86\x26\x01\x20\x1d\x57\x7e\xd4\x6b\xcb\xfc\xe9\x83\x85\x01\xb5\x9e\x78\x9a\x03\x4a\xe0\x0c\xbc\xda\xcb\x45\xc0\x47\x9d\xc4\xc7\xcb\x5f\xef\x9d\x62\x16\x6f\x67\x22\x92\x11\x44\x9e\xcc\x5c\xc0\x67\x9f\x64\x9f\x45\xa3\xce\x1c\x6e\x6e\x34\x47\x70\xc1\x87\xa4\x39\x3c\x39\xae\x37\x18\xd6\x1b\x8a\xea\x6d\xc2\xe3\x63\x7a\xb2\x4a\xbe\x38\xcc\x04\x9f\x28\x76\xc1\xd4\xe9\xd3\xb6\x6e\x3a\xe8\xc6\x65\x7c\x05\x74\x5d\x9c\xa8\x80\x5c\x4f\xcf\x30\xd8\x31\x09\xce\x49\x55\x1d\x61\x42\xed\x8d\x05\xb9\xe8\x79\xe8\xbc\x5d\x0a\x07\x01\x3b\x3e\x60\xae\xbf\x51\x81\x3b\xff\x9e\xd5\xa2\x6c\x24\xe0\x71\x82\x56\x18\x9e\xcb\xc1\x78\xbc\x7b\xf8\xc6\x68\x47\x8c\x40\x07\xcc\x4c\x4e\x1b\x37\x49\x62\x55\xc1\x11\xcb\xda\xaf\x0b\x74\x97\x81\x12\x32\x17\x3a\xc2\x0f\x4d\xdd\xb3\x1c\x79\x11\x45\x14\x99\x34\x4d\xfb\xbf\x31\xb0\x45\x0c\x9a\xcd\x08\xb9\x8d\x70\xd6\xfc\x7d\x18\x6e\x1d\x5f\x83\xae\xf1\x76\xbf\x61\xdf\xdb\x44\x25\x5e\x6b\x9d\x8d\x17\xf1\xd5\x02\x03\xbf\x6c\xc9\x15\xa6\x6d\xf0\xb6\xb8\x5a\x20\xda\xd6\x93\xd3\x35\x54\x36\xa9\xb4\x75\x95\x52\x72\x1d\x1e\xea\xc4\x3a\x71\x96\xd7\xa6\xdd\x05\x3b\x6d\xc7\xcd\xf6\xcd\x53\x34\x19\xa3\xb1\xc6\xbf\xcf\xdb\x43\x5c\xf6\x27\x0f\xb6\x75\x10\xea\xb9\xb2\xc9\xb3\xe2\x33\xd5\xee\x5e\xb3\xca\x4f\xde\x47\xc6\xf8\xb4\x1a\xd4\x50\xe5\x15\x7b\x20\x23\xb3\xb1\xbf\xdd\x3b\xf7\x02\x7f\x6c\x51\x4e\x0b\x5e\x97\x74\xba\xe0\xa2\x37\x62\x8d\x0a\x4e\x2d\x2b\x4a\xcf\x12\x83\xd5\xb2\xea\x92\x73\x28\x76\x0d\x96\x8e\xe7\x70\x5c\xd8\x58\xcc\xf4\x86\xa0\x6e\xaf\x78\xc5\x31\xc6\x68\x87\x7d\x23\x9f\x32\x4f\xa3\xb6\x90\xe3\x2b\xfb\xa5\x3e\xea\xf9\x55\x89\xbd\x20\xb2\xec\x8f\x12\x3b\xc2\x2c\xf5\x6d\xe4\x42\xd4\xbf\x71\xf1\x78\xaa\xc8\x7e\x67\x44\x38\x75\x3d\xae\xd8\x92\xe7\x6d\xed\x3a\xc9\x41\x2e\xdd\x33\x19\x7c\xde\x85\x8e\xa1\xf1\x36\x1f\x42\x68\xa4\x4f\xb2\x2c\xde\x83\xca\xc8\xfb\xbc\x55\x7c\x8f\x31\xaf\x36\x6f\xd2\x91\xc6\x3e\x22\x5b\x1a\x10\x05\x6c\x3f\x4a\xd2\x0c\x61\x98\xc0\xe5\x25\xfc\xc2\xe1\x39\x1e\xe3\xa5\x2b\xf3\x81\x20\x4a\x39\x6b\x31\x85\x09\x07\xfc\xc8\x51\x81\x46\xbc\x36\xec\x68\x80\x5a\xd2\x5d\xb9\xad\x5a\x90\xc1\xf9\x68\x5c\xcf\x4e\x09\x7a\x77\x0b\x6d\x96\x19\x13\xb9\x29\xd7\xb1\x7b\x65\x68\x86\x88\xc8\x16\x6c\xba\xb4\x47\xab\x7a\x2f\xed\xcd\x7a\x63\xb5\xac\xf6\x52\x7e\xbd\xe6\x39\x86\xe8\x67\x50\xd6\x10\xa3\xa5\xb2\x23\xae\xc9\xb6\x44\x5b\x66\x20\x0f\xc7\x67\x78\x8d\xa4\x29\xb0\xce\xd1\xda\x93\x65\x4d\xf1\x2d\xfd\x85\xc9\x66\x89\x07\x19\x42\x96\x78\xac\x9e\x8d\x9d\x53\xbc\xb3\x65\x5e\x2b\x56\x5f\x3f\x56\x5d\x44\xec\xac\x6e\x13\x88\xd9\x20\xb5\xb6\x38\xb0\x25\x64\x1f\xc8\xdd\x7e\xe6\xfe\x84\xbc\x25\xf4\xe8\x50\xb3\x67\x80\x66\x5d\x78\xd2\x7e\x33\x10\x92\x1f\x43\xdc\x4d\x1f\xe5\x8c\x90\xd8\x2e\xeb\xf5\xf8\xec\xcf\xff\xfc\x57\x3f\xfc\xe9\x1f\x7f\xf8\x87\x7f\xf9\xe1\x6f\xff\xf8\x97\xbf\xff\xeb\x7f\xff\xd7\x7f\xfb\xf3\x9f\xfe\xe6\x87\x7f\xfa\xe3\x5f\xfe\xf8\x77\x3b\x0c\xde\x9a\xff\x38\x36\xfa\xa4\xfe\x00\x75\x73\x36\x04\x7a\x67\x33\xf8\x2b\xfb\x80\x89\x0e\xcd\xd3\x06\x6f\x1c\x51\xbd\x73\xc5\x3d\xd1\xc3\x66\xd3\x3d\x9a\x4a\xcc\x60\x0e\xe5\x34\x77\xcf\x27\xdd\x7d\xf8\x7c\x6a\xc1\x56\xce\x7e\x30\x43\xc8\x76\x87\x0e\xdf\x9c\x42\x30\x9b\xb9\xab\x11\xa8\xcd\xca\x8f\x1d\xd8\xf9\x60\x05\xd1\x86\xba\x7a\xc4\xd1\x55\xfe\x16\x04\xd5\x08\x91\x15\xe6\x45\x10\x0e\xec\xd8\xaf\xb8\x6a\x81\xd0\xad\x6a\x4b\xf5\x41\x8d\x7c\xea\xb6\xed\x9d\xc4\xe9\x64\x2b\x45\xfb\xf6\xee\x8e\x54\x11\xb0\x43\xdb\xb7\x5f\x42\x7f\x62\xfa\x1e\x8d\xda\x96\xc4\xf7\xd3\x7e\x07\x73\x5f\xdc\xb7\x1e\x3b\x4f\xf4\xa0\x23\xf4\xad\x7d\xa8\xd1\x80\x4b\x20\x24\x8d\x6b\x11\x6b\x53\x9a\x64\xbe\xf0\x6c\x7a\x1d\xd7\x8e\xe6\x5c\x99\x0f\x75\xfa\x36\x23\x7a\x28\x5d\x93\x51\x95\xaf\xb8\xfa\x50\x2f\xe1\x18\xd3\xf1\xfc\x40\xc1\x41\xb7\xf0\x61\x7c\x06\x2f\x8b\x7c\xa5\x3f\xfa\x85\x08\xeb\xde\x92\x12\x9f\x72\x61\x4d\x16\x8a\x2a\xe2\x58\xcc\x45\xe1\x3d\x59\x4d\xd9\x52\x2d\xfc\x62\xe0\x72\x29\x14\xda\x9d\x59\xa3\xbf\x4c\x84\xf1\x0b\x51\x70\x29\xe1\x6c\x4c\x33\xea\xe5\xf7\xaa\xad\x03\xd6\x63\xab\xcd\x3a\xfc\xa3\x1d\xb3\x1d\x1a\x78\x7e\x38\x30\xd0\x46\x06\x06\x73\xf9\xc3\xc9\xfc\xc1\x6c\xbe\xde\x3b\x78\x97\xc6\x39\x37\x0e\x43\x5f\x85\x7c\xb8\x8f\x63\x5c\x6d\x1d\xca\xc1\xf0\x1b\xea\x26\xf8\xe4\x3e\x1a\x81\xa6\x6c\xeb\xe9\x3c\xc5\x0e\x2e\x38\xe5\x3e\xca\x1a\x63\xb5\xa8\xc4\xab\x03\x4f\x9b\xd9\x8c\xd7\x31\xe2\xea\x17\xbc\x83\x5f\x52\x42\x71\x8a\x60\xf7\x4b\x75\x07\xbf\x5d\xe3\x3e\x5c\x7b\x6c\xce\xf6\xc5\x93\xdb\xd7\x54\x3d\x68\xdb\x0e\xff\x8d\xdb\xa2\x43\x1c\x0f\x26\xce\xed\x9e\xe9\x46\x2f\xe2\x82\x88\x16\x23\x90\xf5\xbd\x79\x76\x1f\x22\x24\xcf\x7e\xf7\x1b\x88\xc7\x5e\xb6\xed\xbb\x36\xfb\xba\x99\x38\x01\x40\x1c\xf0\x28\x6f\xf8\xeb\x66\x22\xa7\xb5\x98\x98\xcf\x06\x6d\xdd\x7a\xdd\x6c\xfc\xaf\xb2\xa0\xb7\xdf\xd7\x07\x75\x75\x7d\xef\xf7\xd4\x40\xf8\x73\x39\xd7\x8b\x4d\x0e\x4a\x16\x49\x08\x06\x1c\xfa\x11\xf7\x6e\x90\x7a\x62\xb0\x5e\x77\xbe\x6c\xc2\xee\xb8\xc7\xb0\x63\xbf\x16\x84\x43\x8e\xf8\x5a\x50\x0b\xf9\xe0\xe5\xa3\xce\x57\x91\x53\x47\x60\xba\xd2\x91\xf8\xbc\x1e\xf8\x4a\xd0\x7e\x08\x54\x9a\xf2\x21\x1f\x0b\x0a\x86\x20\x77\xae\x1a\x61\x27\xbf\xe1\xe7\xff\xcc\x50\x4b\x91\x83\xf7\x90\x49\xbc\x9d\x74\x5c\x40\x77\x4d\x78\x7b\xc7\x2d\xeb\xa4\x4f\x0c\x21\x8b\xbd\x1e\x74\xd2\x8d\xe8\x9b\x09\xd7\x45\x6f\x1f\x2f\x6b\xdb\xf6\xd8\xaa\x12\x3b\xf5\x1b\x44\x9e\x7c\x78\x17\x45\x4e\xff\x06\x91\x07\xc7\x95\x9c\x1f\x26\xae\xb7\x3c\x00\x38\xeb\x52\xb7\x25\xed\xce\x97\x85\x68\xa6\xed\x4c\xd5\xd0\x3c\x5e\xae\x04\x49\xb6\x5e\x77\xc9\xde\x9f\xb3\x5b\xca\x39\xa9\xce\xe7\x72\x3e\x9c\x22\xd9\xad\x1e\xee\xbb\x3c\xbb\xe7\x0e\xc2\x52\xce\xd3\x67\xfa\xc4\xec\xaf\x9a\xed\x2b\xf2\xb0\xb2\x3c\x70\x13\x97\xc8\x43\x71\xf4\xb6\xec\xb1\x47\x5e\xb6\x43\xdd\x7a\xc1\x47\x94\x3d\x62\xe8\x06\xca\xc9\xef\xb1\x9c\x87\x22\xd9\xd2\xf1\xcb\x7e\xe3\xe5\x39\x2b\x56\x3a\xc8\x73\x8e\x39\x5d\x5b\xde\x63\xbe\x05\xd9\x60\xec\x03\x53\x68\x88\x1e\xaa\xce\x42\x0a\x4c\xe0\xd2\xdd\x30\x52\x87\x83\x78\x0f\xe4\x59\x71\x5e\xf2\x04\x46\x50\x4c\x3b\x67\x9f\xcb\x30\xf5\x87\xb6\x2d\x9d\x3b\x32\x68\xe6\xc7\x25\xf8\x13\xd3\x44\x38\x43\x0b\x36\xf1\x76\x94\xd6\x68\x48\xda\x07\x24\x9b\x90\xb8\x3c\xe5\xdf\xa4\x62\x6e\x98\xf9\x8a\x26\xd3\x69\x71\x40\x57\x48\xa6\xf0\xa2\xb4\x11\x1d\x04\x68\xf2\x92\xda\x2a\x6c\x2b\xf2\x28\x8b\x1e\xfd\x3f\x2d\x89\x11\x5d\xa6\x68\xe7\x6e\xef\x7d\x7c\x69\xa2\x22\x93\xb2\xcc\x01\xec\xc5\x0f\x1a\xf6\x3b\x7b\x2d\x84\x68\x66\x5f\xf3\x9a\x6e\x85\x68\x26\x6c\xeb\xe8\x03\x17\xbe\xf6\x30\x21\x41\x84\x5a\xd3\xa0\xe3\x59\xba\x59\xd6\xda\x96\xec\xb9\xf1\xd5\xbb\x31\x5c\xd1\x53\x31\x4d\x6f\x9a\x49\x2e\xe4\x22\x26\xee\x4c\x76\x58\x42\xa9\x29\x77\x75\xb8\xbd\x25\xc7\x48\x76\xa6\xac\xae\x05\x97\x23\x74\xec\xb1\x64\xd2\xc4\xcf\x5a\x76\x91\x5c\x6e\x43\xd4\x76\x64\xff\x65\x24\x8f\x2b\xf8\x7d\xfd\x9d\xfd\x8f\x23\x47\xf0\x29\x5d\x0a\xfb\x88\xa7\xc4\xb0\xee\xde\xf7\xb7\x3d\xd9\xc7\x98\x36\xe5\xde\xe5\x9f\x53\x2c\x4d\xca\xb4\xd9\xb6\x13\xaa\x03\xbd\xd1\x07\xbe\x66\x83\xcb\xfe\xcf\xfe\x9a\x4d\x8b\xdd\xae\xed\x3b\x68\x36\x91\xd8\xf0\xfa\x94\xe2\xbf\xe1\x4f\xd9\xf8\x87\x91\x6f\xc1\x7a\xe7\x9e\x2d\x48\xdb\xb1\x3f\xf7\x57\xa4\xad\xc9\x6b\x1d\x1e\x76\xb9\xa5\xbf\x5e\xf0\x07\xb7\x3a\xaa\x49\x73\xdf\xaa\x09\x82\x5e\x13\xdb\xb7\x5c\x22\xea\xd8\xa3\x86\xfd\x5a\xb3\x67\xfc\x90\xbd\xb2\x5b\x64\xb6\x5d\x63\xd6\xa9\xe9\x77\x87\x99\x15\xf9\xde\x8a\xb2\xde\xe3\x9e\x02\x00\x1e\x22\x5b\x15\x5f\xa7\x7f\x3b\x06\x17\x36\x54\x1c\x33\x64\x72\xb8\x9a\x98\x01\xaa\xf4\x9e\xbb\xc7\x7d\x3b\xc6\xda\x24\x3f\xdb\x57\x62\x06\x50\x3e\xc2\x4c\x82\x61\x3b\xa9\xb5\x7f\x76\x74\xa7\xb5\x80\x8e\xb3\x7d\x7a\x6a\x27\x7a\xbf\x2e\x73\xac\xc9\x25\xab\xe3\xe6\xdd\x2d\x61\xe8\x1a\x5d\xbe\x94\x90\xe5\xd5\x6f\x78\x51\x7e\x7d\x8f\xdd\xd5\xbd\xa0\xe7\xfe\x2f\xb8\xa8\xc6\x8f\x22\x67\xda\xa5\x1c\x30\xc5\x90\x9a\x56\x97\x3e\x97\xf3\x6d\x4b\xec\x5c\xe3\xfa\xd3\x98\x63\xc7\x5a\xd0\x87\x2a\x0b\x2c\xc9\x07\xcd\x2f\x37\x91\x96\x39\x07\x2e\xf1\xd8\xf0\x1f\x03\x00\x7a\xa4\xd9\xfc\x32\x6e\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 27674, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x4e, 0x7f, 0xe2, 0xee, 0x17, 0x8b, 0xaf, 0x7d, 0xdc, 0x35, 0x2c, 0xe, 0x28, 0xe0, 0x37, 0x41, 0x82, 0x92, 0x79, 0x41, 0x5, 0xc9, 0x46, 0x67, 0x4d, 0x53, 0xe8, 0xe5, 0xf7, 0x59, 0xe5, 0x2f}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 28210, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x3f, 0xcd, 0x9b, 0xa0, 0xb9, 0xa8, 0x7, 0xe4, 0x4c, 0xaf, 0x86, 0xe0, 0x77, 0x1f, 0xcc, 0x53, 0xc2, 0x3, 0xe5, 0x9b, 0x93, 0x66, 0x1d, 0x8, 0x48, 0x8a, 0x3d, 0xdf, 0x8d, 0xaa, 0x33, 0x11}}
 	return a, nil
 }
 
-- 
2.43.0


From 3966c262511195ec87e09f015d6ef22adfb6b01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:18 +0000
Subject: [PATCH 20/45] fix: an rpc named NewService keeps one handler

---
 gengokit/service/services.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gengokit/service/services.go b/gengokit/service/services.go
index 7e3f3bb..f65024a 100644
--- a/gengokit/service/services.go
+++ b/gengokit/service/services.go
@@ -166,8 +166,9 @@ func (m methodMap) pruneDecls(decls []ast.Decl, svcName string) []ast.Decl {
 		switch x := d.(type) {
 		case *ast.FuncDecl:
 			name := x.Name.Name
-			// Special case NewService and ignore unexported
-			if name == ignoredFunc || !ast.IsExported(name) {
+			// Special case the NewService function (a method of that name is
+			// the handler of an rpc) and ignore unexported
+			if name == ignoredFunc && x.Recv == nil || !ast.IsExported(name) {
 				log.WithField("Func", name).
 					Debug("Ignoring")
 				newDecls = append(newDecls, x)
-- 
2.43.0


From 00f2a45a9d305aeba7362e2e426c731c6a228f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:18 +0000
Subject: [PATCH 21/45] fix: a bound rpc whose request is a message of another
 package does not crash baron

---
 svcdef/consolidate_http.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/svcdef/consolidate_http.go b/svcdef/consolidate_http.go
index b034453..36b0afb 100644
--- a/svcdef/consolidate_http.go
+++ b/svcdef/consolidate_http.go
@@ -113,6 +113,10 @@ func assembleHTTPParams(svc *Service, httpsvc *svcparse.Service) error {
 		bind.Verb, bind.Path = getVerb(parsedbind)
 
 		var params []*HTTPParameter
+		// a message of another package is not known
+		if msg == nil {
+			msg = &Message{}
+		}
 		for _, field := range msg.Fields {
 			newParam := &HTTPParameter{}
 			newParam.Field = field
-- 
2.43.0


From f457d07c86a1f8b4a7c89188946aa30e6ecba2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:55 +0000
Subject: [PATCH 22/45] fix: 'service' in names before the service definition
 does not end parsing

---
 svcdef/svcparse/scanner.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/svcdef/svcparse/scanner.go b/svcdef/svcparse/scanner.go
index 3f89fdc..51ab33d 100644
--- a/svcdef/svcparse/scanner.go
+++ b/svcdef/svcparse/scanner.go
@@ -302,7 +302,7 @@ func (self *SvcScanner) FastForward() error {
 		if err != nil {
 			return err
 		}
-		if string(buf) == search_str {
+		if string(buf) == search_str && self.BraceLevel == 0 && self.beforeIdent() {
 			self.UnitPos -= 1
 			break
 		}
@@ -310,6 +310,18 @@ func (self *SvcScanner) FastForward() error {
 	return nil
 }
 
+// beforeIdent tells whether an identifier follows, after white space and
+// comments: "service" may also be a part of the package's name, for example.
+func (self *SvcScanner) beforeIdent() bool {
+	for _, unit := range self.Buf[self.UnitPos:] {
+		if unicode.IsSpace(unit.Value[0]) || len(unit.Value) > 1 && unit.Value[0] == '/' {
+			continue
+		}
+		return isIdent(unit.Value[0])
+	}
+	return false
+}
+
 // ReadUnit returns the next "group" of runes found in the input stream. If the
 // end of the stream is reached, io.EOF will be returned as error. No other
 // errors will be returned.
-- 
2.43.0


From 266b605865817e35f9812ec46bd9f207b521c3ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:43 +0000
Subject: [PATCH 23/45] fix: options and empty statements in a service
 definition are skipped

---
 svcdef/svcparse/parser.go | 57 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 57 insertions(+)

diff --git a/svcdef/svcparse/parser.go b/svcdef/svcparse/parser.go
index 54aeb9c..6616aeb 100644
--- a/svcdef/svcparse/parser.go
+++ b/svcdef/svcparse/parser.go
@@ -67,6 +67,43 @@ func fastForwardTill(lex *SvcLexer, delim string) error {
 	}
 }
 
+// isHTTPOption tells, after the keyword "option", whether it is the one with
+// the HTTP bindings. The lexer is left where it is.
+func isHTTPOption(lex *SvcLexer) bool {
+	position := lex.GetPosition()
+	defer lex.UnGetToPosition(position)
+	var name string
+	for {
+		tk, val := lex.GetTokenIgnoreCommentAndWhitespace()
+		if tk != IDENT && tk != OPEN_PAREN && val != "." {
+			break
+		}
+		name += val
+	}
+	return name == "(google.api.http" || name == "(.google.api.http"
+}
+
+// skipOption moves the lexer behind an option whose keyword has been read.
+func skipOption(lex *SvcLexer) error {
+	for braces := 0; ; {
+		tk, val := lex.GetTokenIgnoreCommentAndWhitespace()
+		switch {
+		case tk == EOF || tk == ILLEGAL:
+			return parserErr{
+				expected: "';' after an option",
+				line:     lex.GetLineNumber(),
+				val:      val,
+			}
+		case tk == OPEN_BRACE:
+			braces++
+		case tk == CLOSE_BRACE:
+			braces--
+		case val == ";" && braces <= 0:
+			return nil
+		}
+	}
+}
+
 // Each of the following structs exists as a distillation of a corresponding
 // deftree struct, only including what's necessary for this parser. The reason
 // we define these structs instead of using the ones within deftree is because
@@ -228,6 +265,15 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 		if tk == COMMENT {
 			desc = val
 			tk, val = lex.GetTokenIgnoreWhitespace()
+		} else if tk == SYMBOL && val == ";" {
+			// an empty statement
+			tk, val = lex.GetTokenIgnoreWhitespace()
+		} else if tk == IDENT && val == "option" {
+			if err := skipOption(lex); err != nil {
+				return nil, err
+			}
+			desc = ""
+			tk, val = lex.GetTokenIgnoreWhitespace()
 		} else {
 			break
 		}
@@ -388,6 +434,12 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 	}
 
 	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
+	for tk == IDENT && val == "option" && !isHTTPOption(lex) {
+		if err := skipOption(lex); err != nil {
+			return nil, err
+		}
+		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
+	}
 	if tk != CLOSE_BRACE {
 		return nil, parserErr{
 			expected: "'}' after declaration of http options marking end of rpc declarations",
@@ -431,6 +483,11 @@ func ParseHttpBindings(lex *SvcLexer) ([]*HTTPBinding, error) {
 	}
 
 	switch {
+	case val == "option" && !isHTTPOption(lex):
+		if err := skipOption(lex); err != nil {
+			return nil, err
+		}
+		return ParseHttpBindings(lex)
 	case val == "option":
 		err := fastForwardTill(lex, "{")
 		if err != nil {
-- 
2.43.0


From f28e681793ed72665fc9b3b377391cd2884d1d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:16 +0000
Subject: [PATCH 24/45] fix: single quotes and separators in HTTP options are
 understood

---
 svcdef/svcparse/lexer.go   |  2 +-
 svcdef/svcparse/parser.go  | 31 +++++++++++++++++++++++++++++--
 svcdef/svcparse/scanner.go |  5 +++--
 3 files changed, 33 insertions(+), 5 deletions(-)

diff --git a/svcdef/svcparse/lexer.go b/svcdef/svcparse/lexer.go
index 9e30873..f8ad096 100644
--- a/svcdef/svcparse/lexer.go
+++ b/svcdef/svcparse/lexer.go
@@ -37,7 +37,7 @@ func NewTokenGroup(scn *SvcScanner) *TokenGroup {
 		return &TokenGroup{WHITESPACE, string(unit), scn.GetLineNumber()}
 	case isIdent(unit[0]):
 		return &TokenGroup{IDENT, string(unit), scn.GetLineNumber()}
-	case unit[0] == '"':
+	case unit[0] == '"' || unit[0] == '\'':
 		return &TokenGroup{STRING_LITERAL, string(unit), scn.GetLineNumber()}
 	case unit[0] == '(':
 		return &TokenGroup{OPEN_PAREN, string(unit), scn.GetLineNumber()}
diff --git a/svcdef/svcparse/parser.go b/svcdef/svcparse/parser.go
index 6616aeb..d9d7ff3 100644
--- a/svcdef/svcparse/parser.go
+++ b/svcdef/svcparse/parser.go
@@ -505,7 +505,7 @@ func ParseHttpBindings(lex *SvcLexer) ([]*HTTPBinding, error) {
 		for {
 			if tk == CLOSE_BRACE {
 				return append(rv, new_opt), nil
-			} else if tk == COMMENT {
+			} else if tk == COMMENT || val == "," || val == ";" {
 				good_position = lex.GetPosition()
 			} else if val == "additional_bindings" {
 				lex.UnGetToPosition(good_position)
@@ -556,6 +556,29 @@ func ParseHttpBindings(lex *SvcLexer) ([]*HTTPBinding, error) {
 	return nil, optErr
 }
 
+// unquote returns the value of a string literal in double or single quotes.
+func unquote(lit string) (string, error) {
+	if len(lit) < 2 || lit[0] != '\'' {
+		return strconv.Unquote(lit)
+	}
+	s := []byte{'"'}
+	for i := 1; i < len(lit)-1; i++ {
+		switch {
+		case lit[i] == '"':
+			s = append(s, '\\', '"')
+		case lit[i] == '\\' && lit[i+1] == '\'':
+			s = append(s, '\'')
+			i++
+		case lit[i] == '\\':
+			s = append(s, '\\', lit[i+1])
+			i++
+		default:
+			s = append(s, lit[i])
+		}
+	}
+	return strconv.Unquote(string(append(s, '"')))
+}
+
 func ParseBindingFields(lex *SvcLexer) (fields []*Field, custom []*Field, err error) {
 	field := &Field{}
 	for {
@@ -574,6 +597,10 @@ func ParseBindingFields(lex *SvcLexer) (fields []*Field, custom []*Field, err er
 				break
 			}
 		}
+		// Fields may be separated
+		if tk == SYMBOL && (val == "," || val == ";") {
+			continue
+		}
 		// No longer any more fields
 		if tk == CLOSE_BRACE && val == "}" {
 			lex.UnGetToken()
@@ -623,7 +650,7 @@ func ParseBindingFields(lex *SvcLexer) (fields []*Field, custom []*Field, err er
 			}
 		}
 
-		noqoute, err := strconv.Unquote(val)
+		noqoute, err := unquote(val)
 		if err != nil {
 			return nil, nil, errors.Wrapf(err, "cannot unquote value %q", val)
 		}
diff --git a/svcdef/svcparse/scanner.go b/svcdef/svcparse/scanner.go
index 51ab33d..2034419 100644
--- a/svcdef/svcparse/scanner.go
+++ b/svcdef/svcparse/scanner.go
@@ -169,8 +169,9 @@ func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 			rr.UnreadRune()
 			return setReturn(), nil
 		}
-	case ch == '"':
+	case ch == '"' || ch == '\'':
 		// Handle strings
+		quote := ch
 		for {
 			ch, err = rr.ReadRune()
 			if err != nil {
@@ -184,7 +185,7 @@ func BuildScanUnit(rr *RuneReader) (*ScanUnit, error) {
 				} else {
 					buf = append(buf, ch)
 				}
-			} else if ch == '"' {
+			} else if ch == quote {
 				// Closing quotation
 				buf = append(buf, ch)
 				return setReturn(), nil
-- 
2.43.0


From 43da09d75e4f1a537e7dbf89f6e082814ceada9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:58 +0000
Subject: [PATCH 25/45] fix: a package lookup which finds nothing is an error

---
 cmd/baron/main.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cmd/baron/main.go b/cmd/baron/main.go
index ea6376e..1c2e3a3 100644
--- a/cmd/baron/main.go
+++ b/cmd/baron/main.go
@@ -188,7 +188,10 @@ func parseInput() (*config.Config, error) {
 
 	protoDir := filepath.Dir(cfg.DefPaths[0])
 	p, err := packages.Load(nil, protoDir) // 获取导入包
-	if err != nil || len(p) == 0 {
+	if err == nil && len(p) == 0 {
+		err = errors.New("no packages")
+	}
+	if err != nil {
 		return nil, errors.Wrap(err, "proto files not found in importable go package")
 	}
 
@@ -255,7 +258,10 @@ func parseInput() (*config.Config, error) {
 	}
 
 	p, err = packages.Load(nil, svcPath)
-	if err != nil || len(p) == 0 {
+	if err == nil && len(p) == 0 {
+		err = errors.New("no packages")
+	}
+	if err != nil {
 		return nil, errors.Wrap(err, "generated service not found in importable go package")
 	}
 
-- 
2.43.0


From b90b9eb9efa0aabc3b4d46c05de0a11186d13238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:39 +0000
Subject: [PATCH 26/45] fix: a service directory which is a symbolic link is
 read, not replaced by stubs

---
 cmd/baron/main.go | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/cmd/baron/main.go b/cmd/baron/main.go
index 1c2e3a3..cadf374 100644
--- a/cmd/baron/main.go
+++ b/cmd/baron/main.go
@@ -445,7 +445,8 @@ func readPreviousGeneration(serviceDir string, svcName string) (map[string]io.Re
 
 	files := make(map[string]io.Reader)
 
-	addFileToFiles := func(path string, info os.FileInfo, err error) error {
+	var addFileToFiles filepath.WalkFunc
+	addFileToFiles = func(path string, info os.FileInfo, err error) error {
 		if err != nil {
 			return err
 		}
@@ -460,10 +461,6 @@ func readPreviousGeneration(serviceDir string, svcName string) (map[string]io.Re
 				return filepath.SkipDir
 			}
 		}
-		file, ioErr := os.Open(path)
-		if ioErr != nil {
-			return errors.Wrapf(ioErr, "cannot read file: %v", path)
-		}
 
 		// trim the prefix of the path to the proto files from the full path to the file
 		relPath, err := filepath.Rel(serviceDir, path)
@@ -473,6 +470,21 @@ func readPreviousGeneration(serviceDir string, svcName string) (map[string]io.Re
 
 		// ensure relPath is unix-style, so it matches what we look for later
 		relPath = filepath.ToSlash(relPath)
+
+		// directories of the service which are symbolic links are followed,
+		// as they are when files are written
+		if info.Mode()&os.ModeSymlink != 0 {
+			switch relPath {
+			case handlersDirName, serverDirName, cmdDirName, cmdDirName + "/" + svcName, cmdDirName + "/" + svcName + "-client":
+				return filepath.Walk(path+string(filepath.Separator), addFileToFiles)
+			}
+		}
+
+		file, ioErr := os.Open(path)
+		if ioErr != nil {
+			return errors.Wrapf(ioErr, "cannot read file: %v", path)
+		}
+
 		// exclude server/server.go
 		log.Tracef("relPath=%s", relPath)
 		if relPath == "server/server.go" {
@@ -484,7 +496,7 @@ func readPreviousGeneration(serviceDir string, svcName string) (map[string]io.Re
 		return nil
 	}
 
-	err := filepath.Walk(serviceDir, addFileToFiles)
+	err := filepath.Walk(serviceDir+string(filepath.Separator), addFileToFiles)
 	if err != nil {
 		return nil, errors.Wrapf(err, "cannot fully walk directory %v", serviceDir)
 	}
-- 
2.43.0


From 40aec623f71969794128cfc12ea6ad80bacba499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:37:39 +0000
Subject: [PATCH 27/45] fix: the .pb.go files are put in place complete

---
 cmd/baron/main.go | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/cmd/baron/main.go b/cmd/baron/main.go
index cadf374..33ad35a 100644
--- a/cmd/baron/main.go
+++ b/cmd/baron/main.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"go/build"
 	"io"
+	"io/ioutil"
 	"os"
 	"os/exec"
 	"path/filepath"
@@ -200,7 +201,7 @@ func parseInput() (*config.Config, error) {
 	log.WithField("PB Package", cfg.PBPackage).Debug()
 	log.WithField("PB Path", cfg.PBPath).Debug()
 
-	if err := execprotoc.GeneratePBDotGo(cfg.DefPaths, cfg.GoPath, cfg.PBPath); err != nil {
+	if err := generatePBDotGo(&cfg); err != nil {
 		return nil, errors.Wrap(err, "cannot create .pb.go files")
 	}
 	// 输出文件
@@ -283,6 +284,37 @@ func parseInput() (*config.Config, error) {
 	return &cfg, nil
 }
 
+// generatePBDotGo creates the .pb.go files beside the definitions. The protocol
+// compiler writes them to a directory of its own: when it fails, or another
+// baron is running, there is never an incomplete one beside the definitions.
+func generatePBDotGo(cfg *config.Config) error {
+	td, err := ioutil.TempDir("", "baron-pb")
+	if err != nil {
+		return errors.Wrap(err, "cannot create temporary directory")
+	}
+	defer os.RemoveAll(td)
+
+	if err := execprotoc.GeneratePBDotGo(cfg.DefPaths, cfg.GoPath, td); err != nil {
+		return err
+	}
+	infos, err := ioutil.ReadDir(td)
+	if err != nil {
+		return errors.Wrap(err, "cannot list generated .pb.go files")
+	}
+	for _, info := range infos {
+		file, err := os.Open(filepath.Join(td, info.Name()))
+		if err != nil {
+			return errors.Wrap(err, "cannot open generated .pb.go file")
+		}
+		err = gengokit.WriteGenFile(file, filepath.Join(cfg.PBPath, info.Name()))
+		file.Close()
+		if err != nil {
+			return errors.Wrap(err, "cannot write .pb.go file")
+		}
+	}
+	return nil
+}
+
 // parseSVCOut 解析服务输出目录
 // 如果是相对路径转化为绝对路径
 // 否则使用 GOPATH + svcOut 路径
-- 
2.43.0


From d595c9d7e10b2e229d872bfc34675dceba89babc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:37 +0000
Subject: [PATCH 28/45] fix: an empty statement in an rpc does not lose the
 service's HTTP bindings

---
 svcdef/svcparse/parser.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/svcdef/svcparse/parser.go b/svcdef/svcparse/parser.go
index d9d7ff3..4872fc7 100644
--- a/svcdef/svcparse/parser.go
+++ b/svcdef/svcparse/parser.go
@@ -434,9 +434,11 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 	}
 
 	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
-	for tk == IDENT && val == "option" && !isHTTPOption(lex) {
-		if err := skipOption(lex); err != nil {
-			return nil, err
+	for tk == SYMBOL && val == ";" || tk == IDENT && val == "option" && !isHTTPOption(lex) {
+		if val == "option" {
+			if err := skipOption(lex); err != nil {
+				return nil, err
+			}
 		}
 		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	}
@@ -477,6 +479,9 @@ func ParseHttpBindings(lex *SvcLexer) ([]*HTTPBinding, error) {
 				line:     lex.GetLineNumber(),
 				val:      tk.String(),
 			}
+		} else if tk == SYMBOL && val == ";" {
+			// an empty statement
+			tk, val = lex.GetTokenIgnoreWhitespace()
 		} else {
 			break
 		}
-- 
2.43.0


From 90541b08c9620e1f52d3b1a87e73d2ac7a58ce86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:01 +0000
Subject: [PATCH 29/45] fix: comments between the words of an rpc or HTTP rule
 are allowed

---
 svcdef/svcparse/parser.go | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/svcdef/svcparse/parser.go b/svcdef/svcparse/parser.go
index 4872fc7..6ea5399 100644
--- a/svcdef/svcparse/parser.go
+++ b/svcdef/svcparse/parser.go
@@ -219,7 +219,7 @@ func ParseService(lex *SvcLexer) (*Service, error) {
 
 	toret := &Service{}
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	if tk != IDENT {
 		return nil, parserErr{
 			expected: "a string identifier",
@@ -229,7 +229,7 @@ func ParseService(lex *SvcLexer) (*Service, error) {
 	}
 	toret.Name = val
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	if tk != OPEN_BRACE {
 		return nil, parserErr{
 			expected: "'{'",
@@ -294,7 +294,7 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 	toret := &Method{}
 	toret.Description = desc
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	if tk != IDENT {
 		return nil, parserErr{
 			expected: "a string identifier",
@@ -307,7 +307,7 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 	// TODO Add some kind of lookup of the existing messages instead of
 	// creating a new message
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	if tk != OPEN_PAREN {
 		return nil, parserErr{
 			expected: "'('",
@@ -316,11 +316,11 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 		}
 	}
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	// Here we ignore the "stream" keyword which may appear in the arguments of
 	// an RPC definition
 	if val == "stream" {
-		tk, val = lex.GetTokenIgnoreWhitespace()
+		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	}
 	if tk != IDENT {
 		return nil, parserErr{
@@ -335,7 +335,7 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 	// doesn't support properly importanting external packages, but by
 	// using this approach type aliases can be made alongside the generated
 	// pb.go code (type Struct = types.Struct)
-	for ; tk != CLOSE_PAREN; tk, val = lex.GetTokenIgnoreWhitespace() {
+	for ; tk != CLOSE_PAREN; tk, val = lex.GetTokenIgnoreCommentAndWhitespace() {
 		switch tk {
 		case SYMBOL: // skip
 		case IDENT:
@@ -349,7 +349,7 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 		}
 	}
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	if tk != IDENT || val != "returns" {
 		return nil, parserErr{
 			expected: "'returns' keyword",
@@ -358,7 +358,7 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 		}
 	}
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	if tk != OPEN_PAREN {
 		return nil, parserErr{
 			expected: "'('",
@@ -367,11 +367,11 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 		}
 	}
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	// Here we ignore the "stream" keyword which may appear in the arguments of
 	// an RPC definition
 	if val == "stream" {
-		tk, val = lex.GetTokenIgnoreWhitespace()
+		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	}
 	if tk != IDENT {
 		return nil, parserErr{
@@ -386,7 +386,7 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 	// doesn't support properly importanting external packages, but by
 	// using this approach type aliases can be made alongside the generated
 	// pb.go code (type Struct = types.Struct)
-	for ; tk != CLOSE_PAREN; tk, val = lex.GetTokenIgnoreWhitespace() {
+	for ; tk != CLOSE_PAREN; tk, val = lex.GetTokenIgnoreCommentAndWhitespace() {
 		switch tk {
 		case SYMBOL: // skip
 		case IDENT:
@@ -400,7 +400,7 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 		}
 	}
 
-	tk, val = lex.GetTokenIgnoreWhitespace()
+	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	if val == ";" {
 		// No http options defined
 		return nil, nil
@@ -637,7 +637,7 @@ func ParseBindingFields(lex *SvcLexer) (fields []*Field, custom []*Field, err er
 		field.Kind = val
 		field.Name = val
 
-		tk, val = lex.GetTokenIgnoreWhitespace()
+		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 		if tk != SYMBOL || val != ":" {
 			return nil, nil, parserErr{
 				expected: "symbol ':'",
@@ -646,7 +646,7 @@ func ParseBindingFields(lex *SvcLexer) (fields []*Field, custom []*Field, err er
 			}
 		}
 
-		tk, val = lex.GetTokenIgnoreWhitespace()
+		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 		if tk != STRING_LITERAL {
 			return nil, nil, parserErr{
 				expected: "string literal",
-- 
2.43.0


From 20b2a090b7661e692b033b58b283067d9b3efbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:01 +0000
Subject: [PATCH 30/45] fix: the type of an rpc may be written with a leading
 dot

---
 svcdef/svcparse/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svcdef/svcparse/parser.go b/svcdef/svcparse/parser.go
index 6ea5399..bca9d2c 100644
--- a/svcdef/svcparse/parser.go
+++ b/svcdef/svcparse/parser.go
@@ -322,7 +322,7 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 	if val == "stream" {
 		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	}
-	if tk != IDENT {
+	if tk != IDENT && val != "." {
 		return nil, parserErr{
 			expected: "a string identifier in first argument to method",
 			line:     lex.GetLineNumber(),
@@ -373,7 +373,7 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 	if val == "stream" {
 		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
 	}
-	if tk != IDENT {
+	if tk != IDENT && val != "." {
 		return nil, parserErr{
 			expected: "a string identifier in return argument to method",
 			line:     lex.GetLineNumber(),
-- 
2.43.0


From 581f10f2dadc8e74f8d69b38ebd083145fe20d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:54 +0000
Subject: [PATCH 31/45] fix: fields of an HTTP rule may follow its additional
 bindings

---
 svcdef/svcparse/parser.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/svcdef/svcparse/parser.go b/svcdef/svcparse/parser.go
index bca9d2c..21c9f11 100644
--- a/svcdef/svcparse/parser.go
+++ b/svcdef/svcparse/parser.go
@@ -520,6 +520,16 @@ func ParseHttpBindings(lex *SvcLexer) ([]*HTTPBinding, error) {
 				}
 				rv = append(rv, more_bindings...)
 				good_position = lex.GetPosition()
+			} else if tk == IDENT {
+				// more fields of the rule
+				lex.UnGetToPosition(good_position)
+				fields, custom, err := ParseBindingFields(lex)
+				if err != nil {
+					return nil, err
+				}
+				new_opt.Fields = append(new_opt.Fields, fields...)
+				new_opt.CustomHTTPPattern = append(new_opt.CustomHTTPPattern, custom...)
+				good_position = lex.GetPosition()
 			} else if tk == EOF || tk == ILLEGAL {
 				return nil, parserErr{
 					expected: "legal token while parsing HttpBindings",
-- 
2.43.0


From 220c16c6e799a2cabde92b7313db92e47b7ecc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:54 +0000
Subject: [PATCH 32/45] fix: strings of an HTTP rule written in several parts

---
 svcdef/svcparse/parser.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/svcdef/svcparse/parser.go b/svcdef/svcparse/parser.go
index 21c9f11..c396687 100644
--- a/svcdef/svcparse/parser.go
+++ b/svcdef/svcparse/parser.go
@@ -671,6 +671,21 @@ func ParseBindingFields(lex *SvcLexer) (fields []*Field, custom []*Field, err er
 		}
 		field.Value = noqoute
 
+		// A string may be written in several parts
+		for {
+			position := lex.GetPosition()
+			tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
+			if tk != STRING_LITERAL {
+				lex.UnGetToPosition(position)
+				break
+			}
+			part, err := unquote(val)
+			if err != nil {
+				return nil, nil, errors.Wrapf(err, "cannot unquote value %q", val)
+			}
+			field.Value += part
+		}
+
 		fields = append(fields, field)
 		field = &Field{}
 	}
-- 
2.43.0


From d758afd66943a5253cd6f49be1770dac4023c4a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:34 +0000
Subject: [PATCH 33/45] fix: additional bindings may be a list, messages of a
 rule in angle brackets

---
 svcdef/svcparse/parser.go | 79 ++++++++++++++++++++++++++++-----------
 1 file changed, 58 insertions(+), 21 deletions(-)

diff --git a/svcdef/svcparse/parser.go b/svcdef/svcparse/parser.go
index c396687..2233629 100644
--- a/svcdef/svcparse/parser.go
+++ b/svcdef/svcparse/parser.go
@@ -546,21 +546,47 @@ func ParseHttpBindings(lex *SvcLexer) ([]*HTTPBinding, error) {
 			tk, val = lex.GetTokenIgnoreWhitespace()
 		}
 	case val == "additional_bindings":
-		err := fastForwardTill(lex, "{")
-		if err != nil {
-			return nil, err
-		}
-		fields, custom, err := ParseBindingFields(lex)
-		if err != nil {
-			return nil, err
-		}
-		new_opt.Fields = fields
-		new_opt.CustomHTTPPattern = custom
-		err = fastForwardTill(lex, "}")
-		if err != nil {
-			return nil, err
+		// one binding, or a list of them in brackets
+		list := false
+		for {
+			tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
+			switch {
+			case val == ":" && !list || val == "," && list:
+				continue
+			case val == "[" && !list:
+				list = true
+				continue
+			case val == "]" && list:
+				return rv, nil
+			case val == "{" || val == "<":
+				// read below
+			default:
+				return nil, parserErr{
+					expected: "'{' after additional_bindings",
+					line:     lex.GetLineNumber(),
+					val:      val,
+				}
+			}
+			fields, custom, err := ParseBindingFields(lex)
+			if err != nil {
+				return nil, err
+			}
+			new_opt.Fields = fields
+			new_opt.CustomHTTPPattern = custom
+			rv = append(rv, new_opt)
+			new_opt = &HTTPBinding{}
+			tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
+			if tk != CLOSE_BRACE && val != ">" {
+				return nil, parserErr{
+					expected: "'}' after an additional binding",
+					line:     lex.GetLineNumber(),
+					val:      val,
+				}
+			}
+			if !list {
+				return rv, nil
+			}
 		}
-		return append(rv, new_opt), nil
 	case val == "}":
 		// End of RPC
 		return nil, nil
@@ -617,7 +643,7 @@ func ParseBindingFields(lex *SvcLexer) (fields []*Field, custom []*Field, err er
 			continue
 		}
 		// No longer any more fields
-		if tk == CLOSE_BRACE && val == "}" {
+		if tk == CLOSE_BRACE && val == "}" || tk == SYMBOL && val == ">" {
 			lex.UnGetToken()
 			break
 		} else if val == "additional_bindings" {
@@ -626,9 +652,16 @@ func ParseBindingFields(lex *SvcLexer) (fields []*Field, custom []*Field, err er
 		}
 		// Use recursion to parse custom HTTP verb sections
 		if val == "custom" {
-			err := fastForwardTill(lex, "{")
-			if err != nil {
-				return nil, nil, errors.Wrap(err, "cannot fastforward till opening brace")
+			tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
+			if val == ":" {
+				tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
+			}
+			if tk != OPEN_BRACE && val != "<" {
+				return nil, nil, parserErr{
+					expected: "'{' after custom",
+					line:     lex.GetLineNumber(),
+					val:      val,
+				}
 			}
 			// Since there cannot be a custom within a custom, we ignore custom
 			// values returned from a recursive parsing of more fields
@@ -637,9 +670,13 @@ func ParseBindingFields(lex *SvcLexer) (fields []*Field, custom []*Field, err er
 				return nil, nil, errors.Wrap(err, "cannot parse custom binding fields")
 			}
 			custom = c
-			err = fastForwardTill(lex, "}")
-			if err != nil {
-				return nil, nil, errors.Wrap(err, "cannot fastforward to closing brace")
+			tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
+			if tk != CLOSE_BRACE && val != ">" {
+				return nil, nil, parserErr{
+					expected: "'}' after the fields of custom",
+					line:     lex.GetLineNumber(),
+					val:      val,
+				}
 			}
 			continue
 		}
-- 
2.43.0


From 8fc669453eb6a77bd46a9018e327bf38726ef05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:24 +0000
Subject: [PATCH 34/45] fix: an HTTP rule may be set field by field

---
 svcdef/svcparse/parser.go | 232 ++++++++++++++++++++++++++------------
 1 file changed, 160 insertions(+), 72 deletions(-)

diff --git a/svcdef/svcparse/parser.go b/svcdef/svcparse/parser.go
index 2233629..745794f 100644
--- a/svcdef/svcparse/parser.go
+++ b/svcdef/svcparse/parser.go
@@ -20,6 +20,7 @@ import (
 	"fmt"
 	"io"
 	"strconv"
+	"strings"
 
 	"github.com/pkg/errors"
 )
@@ -417,7 +418,7 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 		return nil, err
 	}
 	// End of RPC (no httpoptions)
-	if bindings == nil {
+	if len(bindings) == 0 {
 		return nil, nil
 	}
 	toret.HTTPBindings = bindings
@@ -434,8 +435,22 @@ func ParseMethod(lex *SvcLexer) (*Method, error) {
 	}
 
 	tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
-	for tk == SYMBOL && val == ";" || tk == IDENT && val == "option" && !isHTTPOption(lex) {
-		if val == "option" {
+	for tk == SYMBOL && val == ";" || tk == IDENT && val == "option" {
+		switch {
+		case val == ";":
+		case isHTTPOption(lex):
+			// another field of the rule, which is the last of the bindings
+			name, err := ruleField(lex)
+			if err != nil {
+				return nil, err
+			}
+			last := len(toret.HTTPBindings) - 1
+			more, err := parseRuleField(lex, name, toret.HTTPBindings[last])
+			if err != nil {
+				return nil, err
+			}
+			toret.HTTPBindings = append(more, toret.HTTPBindings...)
+		default:
 			if err := skipOption(lex); err != nil {
 				return nil, err
 			}
@@ -494,7 +509,18 @@ func ParseHttpBindings(lex *SvcLexer) ([]*HTTPBinding, error) {
 		}
 		return ParseHttpBindings(lex)
 	case val == "option":
-		err := fastForwardTill(lex, "{")
+		name, err := ruleField(lex)
+		if err != nil {
+			return nil, err
+		}
+		if name != "" {
+			rv, err = parseRuleField(lex, name, new_opt)
+			if err != nil {
+				return nil, err
+			}
+			return append(rv, new_opt), nil
+		}
+		err = fastForwardTill(lex, "{")
 		if err != nil {
 			return nil, err
 		}
@@ -546,47 +572,7 @@ func ParseHttpBindings(lex *SvcLexer) ([]*HTTPBinding, error) {
 			tk, val = lex.GetTokenIgnoreWhitespace()
 		}
 	case val == "additional_bindings":
-		// one binding, or a list of them in brackets
-		list := false
-		for {
-			tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
-			switch {
-			case val == ":" && !list || val == "," && list:
-				continue
-			case val == "[" && !list:
-				list = true
-				continue
-			case val == "]" && list:
-				return rv, nil
-			case val == "{" || val == "<":
-				// read below
-			default:
-				return nil, parserErr{
-					expected: "'{' after additional_bindings",
-					line:     lex.GetLineNumber(),
-					val:      val,
-				}
-			}
-			fields, custom, err := ParseBindingFields(lex)
-			if err != nil {
-				return nil, err
-			}
-			new_opt.Fields = fields
-			new_opt.CustomHTTPPattern = custom
-			rv = append(rv, new_opt)
-			new_opt = &HTTPBinding{}
-			tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
-			if tk != CLOSE_BRACE && val != ">" {
-				return nil, parserErr{
-					expected: "'}' after an additional binding",
-					line:     lex.GetLineNumber(),
-					val:      val,
-				}
-			}
-			if !list {
-				return rv, nil
-			}
-		}
+		return parseAdditionalBindings(lex, new_opt)
 	case val == "}":
 		// End of RPC
 		return nil, nil
@@ -597,6 +583,53 @@ func ParseHttpBindings(lex *SvcLexer) ([]*HTTPBinding, error) {
 	return nil, optErr
 }
 
+// parseAdditionalBindings reads what follows the name "additional_bindings". The
+// first of them is read into opt.
+func parseAdditionalBindings(lex *SvcLexer, opt *HTTPBinding) ([]*HTTPBinding, error) {
+	rv := make([]*HTTPBinding, 0)
+	// one binding, or a list of them in brackets
+	list := false
+	for {
+		tk, val := lex.GetTokenIgnoreCommentAndWhitespace()
+		switch {
+		case val == ":" && !list || val == "," && list:
+			continue
+		case val == "[" && !list:
+			list = true
+			continue
+		case val == "]" && list:
+			return rv, nil
+		case val == "{" || val == "<":
+			// read below
+		default:
+			return nil, parserErr{
+				expected: "'{' after additional_bindings",
+				line:     lex.GetLineNumber(),
+				val:      val,
+			}
+		}
+		fields, custom, err := ParseBindingFields(lex)
+		if err != nil {
+			return nil, err
+		}
+		opt.Fields = fields
+		opt.CustomHTTPPattern = custom
+		rv = append(rv, opt)
+		opt = &HTTPBinding{}
+		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
+		if tk != CLOSE_BRACE && val != ">" {
+			return nil, parserErr{
+				expected: "'}' after an additional binding",
+				line:     lex.GetLineNumber(),
+				val:      val,
+			}
+		}
+		if !list {
+			return rv, nil
+		}
+	}
+}
+
 // unquote returns the value of a string literal in double or single quotes.
 func unquote(lit string) (string, error) {
 	if len(lit) < 2 || lit[0] != '\'' {
@@ -620,6 +653,86 @@ func unquote(lit string) (string, error) {
 	return strconv.Unquote(string(append(s, '"')))
 }
 
+// parseString reads a string, which may be written in several parts.
+func parseString(lex *SvcLexer) (string, error) {
+	tk, val := lex.GetTokenIgnoreCommentAndWhitespace()
+	if tk != STRING_LITERAL {
+		return "", parserErr{
+			expected: "string literal",
+			line:     lex.GetLineNumber(),
+			val:      val,
+		}
+	}
+	var rv string
+	for {
+		part, err := unquote(val)
+		if err != nil {
+			return "", errors.Wrapf(err, "cannot unquote value %q", val)
+		}
+		rv += part
+		position := lex.GetPosition()
+		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
+		if tk != STRING_LITERAL {
+			lex.UnGetToPosition(position)
+			return rv, nil
+		}
+	}
+}
+
+// ruleField returns the name of the field of an HTTP rule an option statement
+// sets, for example "get" or "custom.kind"; it is empty for the whole rule. The
+// lexer is behind the "=".
+func ruleField(lex *SvcLexer) (string, error) {
+	if err := fastForwardTill(lex, ")"); err != nil {
+		return "", err
+	}
+	name := ""
+	for {
+		tk, val := lex.GetTokenIgnoreCommentAndWhitespace()
+		switch {
+		case val == "=":
+			return strings.TrimPrefix(name, "."), nil
+		case tk == IDENT || val == ".":
+			name += val
+		default:
+			return "", parserErr{
+				expected: "'=' in an option",
+				line:     lex.GetLineNumber(),
+				val:      val,
+			}
+		}
+	}
+}
+
+// parseRuleField reads the value of one field of an HTTP rule into opt. It
+// returns additional bindings.
+func parseRuleField(lex *SvcLexer, name string, opt *HTTPBinding) ([]*HTTPBinding, error) {
+	switch {
+	case name == "additional_bindings":
+		return parseAdditionalBindings(lex, &HTTPBinding{})
+	case name == "custom":
+		if err := fastForwardTill(lex, "{"); err != nil {
+			return nil, err
+		}
+		custom, _, err := ParseBindingFields(lex)
+		if err != nil {
+			return nil, err
+		}
+		opt.CustomHTTPPattern = custom
+		return nil, fastForwardTill(lex, "}")
+	}
+	val, err := parseString(lex)
+	if err != nil {
+		return nil, err
+	}
+	if kind := strings.TrimPrefix(name, "custom."); kind != name {
+		opt.CustomHTTPPattern = append(opt.CustomHTTPPattern, &Field{Name: kind, Kind: kind, Value: val})
+	} else {
+		opt.Fields = append(opt.Fields, &Field{Name: name, Kind: name, Value: val})
+	}
+	return nil, nil
+}
+
 func ParseBindingFields(lex *SvcLexer) (fields []*Field, custom []*Field, err error) {
 	field := &Field{}
 	for {
@@ -693,34 +806,9 @@ func ParseBindingFields(lex *SvcLexer) (fields []*Field, custom []*Field, err er
 			}
 		}
 
-		tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
-		if tk != STRING_LITERAL {
-			return nil, nil, parserErr{
-				expected: "string literal",
-				line:     lex.GetLineNumber(),
-				val:      val,
-			}
-		}
-
-		noqoute, err := unquote(val)
+		field.Value, err = parseString(lex)
 		if err != nil {
-			return nil, nil, errors.Wrapf(err, "cannot unquote value %q", val)
-		}
-		field.Value = noqoute
-
-		// A string may be written in several parts
-		for {
-			position := lex.GetPosition()
-			tk, val = lex.GetTokenIgnoreCommentAndWhitespace()
-			if tk != STRING_LITERAL {
-				lex.UnGetToPosition(position)
-				break
-			}
-			part, err := unquote(val)
-			if err != nil {
-				return nil, nil, errors.Wrapf(err, "cannot unquote value %q", val)
-			}
-			field.Value += part
+			return nil, nil, err
 		}
 
 		fields = append(fields, field)
-- 
2.43.0


From e04cfd82d9c1703a6175105b9aca7b70812890f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:28 +0000
Subject: [PATCH 35/45] fix: httptransport: the client fills path parameters
 which are a part of a segment

---
 gengokit/httptransport/httptransport.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index 728215d..f15eb00 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -266,14 +266,20 @@ func (b *Binding) PathSections() []string {
 	rv := []string{}
 	parts := strings.Split(b.PathTemplate, "/")
 	for _, part := range parts {
-		if len(part) > 2 && part[0] == '{' && part[len(part)-1] == '}' {
-			name := RemoveBraces(part)
+		open, close := strings.Index(part, "{"), strings.Index(part, "}")
+		if open >= 0 && close > open+1 {
+			name := part[open+1 : close]
+			convert := fmt.Sprintf("url.PathEscape(fmt.Sprint(req.%v))", pkg.GoCamelCase(name))
 			if _, ok := isEnum[pkg.GoCamelCase(name)]; ok {
-				convert := fmt.Sprintf("url.PathEscape(fmt.Sprintf(\"%%d\", req.%v))", pkg.GoCamelCase(name))
-				rv = append(rv, convert)
-				continue
+				convert = fmt.Sprintf("url.PathEscape(fmt.Sprintf(\"%%d\", req.%v))", pkg.GoCamelCase(name))
+			}
+			// what is around the parameter, for example ":cancel"
+			if before := part[:open]; before != "" {
+				convert = strconv.Quote(before) + " + " + convert
+			}
+			if after := part[close+1:]; after != "" {
+				convert += " + " + strconv.Quote(after)
 			}
-			convert := fmt.Sprintf("url.PathEscape(fmt.Sprint(req.%v))", pkg.GoCamelCase(name))
 			rv = append(rv, convert)
 		} else {
 			// Add quotes around things which'll be embeded as string literals,
-- 
2.43.0


From f02614c9acb61f047eb78d18d23861aba329d646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:17 +0000
Subject: [PATCH 36/45] fix: generated code compiles for rpcs named like a Go
 keyword or equal but for case

---
 .../NAME-service/baron/NAME.pb.baron.go.tmpl  | 22 +++++++++----------
 .../NAME-service/server/server.go.tmpl        |  4 ++--
 gengokit/template/template.go                 | 16 +++++++-------
 3 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index a31b64b..cbd00f1 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -187,7 +187,7 @@ func MakeGRPCServer(endpoints Endpoints, options ...grpctransport.ServerOption)
 	// {{ ToLower .Service.Name }}
 	return &grpcServer{
 	{{range $i := .Service.Methods}}
-		{{ToLower $i.Name}}: grpctransport.NewServer(
+		handler{{$i.Name}}: grpctransport.NewServer(
 			endpoints.{{$i.Name}}Endpoint,
 			DecodeGRPC{{$i.Name}}Request,
 			EncodeGRPC{{$i.Name}}Response,
@@ -201,14 +201,14 @@ func MakeGRPCServer(endpoints Endpoints, options ...grpctransport.ServerOption)
 type grpcServer struct {
 	Unimplemented{{.Service.Name}}Server
 {{range $i := .Service.Methods}}
-	{{ToLower $i.Name}}   grpctransport.Handler
+	handler{{$i.Name}}   grpctransport.Handler
 {{- end}}
 }
 
 // Methods for grpcServer to implement {{GoName .Service.Name}}Server interface
 {{range $i := .Service.Methods}}
 func (s *grpcServer) {{GoName $i.Name}}(ctx context.Context, req *{{GoName $i.RequestType.Name}}) (*{{GoName $i.ResponseType.Name}}, error) {
-	_, rep, err := s.{{ToLower $i.Name}}.ServeGRPC(ctx, req)
+	_, rep, err := s.handler{{$i.Name}}.ServeGRPC(ctx, req)
 	if err != nil {
 		return nil, err
 	}
@@ -260,9 +260,9 @@ func NewGRPCClient(conn *grpc.ClientConn, options ...grpctransport.ClientOption)
 	{{- with $te := .}}
 		{{- with $pkgName := $te.PackageName}}
 			{{- range $i := $te.Service.Methods}}
-	var {{ToLower $i.Name}}Endpoint endpoint.Endpoint
+	var endpoint{{$i.Name}} endpoint.Endpoint
 	{
-		{{ToLower $i.Name}}Endpoint = grpctransport.NewClient(
+		endpoint{{$i.Name}} = grpctransport.NewClient(
 			conn,
 			"{{or $te.Service.GRPCName (printf "%s.%s" $pkgName $te.Service.Name)}}",
 			"{{or $i.GRPCName $i.Name}}",
@@ -278,7 +278,7 @@ func NewGRPCClient(conn *grpc.ClientConn, options ...grpctransport.ClientOption)
 
 	return Endpoints{
 	{{range $i := .Service.Methods -}}
-		{{$i.Name}}Endpoint:    {{ToLower $i.Name}}Endpoint,
+		{{$i.Name}}Endpoint:    endpoint{{$i.Name}},
 	{{end}}
 	}, nil
 }
@@ -738,11 +738,11 @@ func CtxValuesToSend(keys ...string) httptransport.ClientOption {
 func ServeNATS(conn *nats.Conn, srv *natsServer) error {
 {{with $te := .}}
 	{{- range $i := $te.Service.Methods}}
-		{{ToLower $i.Name}}Sub, err := conn.QueueSubscribe("{{$te.Service.Name}}.{{$i.Name}}", "{{$te.Service.Name}}", srv.{{$i.Name}}.ServeMsg(conn))
+		sub{{$i.Name}}, err := conn.QueueSubscribe("{{$te.Service.Name}}.{{$i.Name}}", "{{$te.Service.Name}}", srv.{{$i.Name}}.ServeMsg(conn))
 		if err != nil {
 			return err
 		}
-		_ = {{ToLower $i.Name}}Sub
+		_ = sub{{$i.Name}}
 	{{end}}
 	return nil
 {{end}}
@@ -828,9 +828,9 @@ func natsErrorDecoder(data []byte) error {
 func NewNATSClient(conn *nats.Conn, options ...natstransport.PublisherOption) ({{.Service.Name}}Server, error) {
 	{{- with $te := .}}
 		{{- range $i := $te.Service.Methods}}
-			var {{ToLower $i.Name}}Endpoint endpoint.Endpoint
+			var endpoint{{$i.Name}} endpoint.Endpoint
 			{
-				{{ToLower $i.Name}}Endpoint = natstransport.NewPublisher(
+				endpoint{{$i.Name}} = natstransport.NewPublisher(
 					conn,
 					"{{$te.Service.Name}}.{{$i.Name}}",
 					EncodeNATSGenericRequest,
@@ -843,7 +843,7 @@ func NewNATSClient(conn *nats.Conn, options ...natstransport.PublisherOption) ({
 
 	return Endpoints{
 	{{range $i := .Service.Methods -}}
-		{{$i.Name}}Endpoint:    {{ToLower $i.Name}}Endpoint,
+		{{$i.Name}}Endpoint:    endpoint{{$i.Name}},
 	{{end}}
 	}, nil
 }
diff --git a/gengokit/template/NAME-service/server/server.go.tmpl b/gengokit/template/NAME-service/server/server.go.tmpl
index 863b683..a4dcf54 100644
--- a/gengokit/template/NAME-service/server/server.go.tmpl
+++ b/gengokit/template/NAME-service/server/server.go.tmpl
@@ -128,13 +128,13 @@ func NewEndpoints(svc pb.{{.Service.Name}}Server) pb.Endpoints {
 	// Endpoint domain
 	var (
 	{{range $i := .Service.Methods -}}
-		{{ToLower $i.Name}}Endpoint = pb.Make{{$i.Name}}Endpoint(svc)
+		endpoint{{$i.Name}} = pb.Make{{$i.Name}}Endpoint(svc)
 	{{end}}
 	)
 
 	endpoints := pb.Endpoints{
 	{{range $i := .Service.Methods -}}
-		{{$i.Name}}Endpoint:    {{ToLower $i.Name}}Endpoint,
+		{{$i.Name}}Endpoint:    endpoint{{$i.Name}},
 	{{end}}
 	}
 	// Wrap selected Endpoints with middlewares
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index 16c48c1..a5a63cc 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -1,11 +1,11 @@
 // Code generated by go-bindata. DO NOT EDIT.
 // sources:
-// NAME-service/baron/NAME.pb.baron.go.tmpl (28.210kB)
+// NAME-service/baron/NAME.pb.baron.go.tmpl (28.143kB)
 // NAME-service/cmd/NAME/main.go.tmpl (1.381kB)
 // NAME-service/cmd/NAME-client/main.go.tmpl (2.923kB)
 // NAME-service/server/endpoints.go.tmpl (230B)
 // NAME-service/server/interrupt.go.tmpl (332B)
-// NAME-service/server/server.go.tmpl (3.202kB)
+// NAME-service/server/server.go.tmpl (3.186kB)
 // NAME-service/server/wrapper.go.tmpl (1.078kB)
 // NAME-service/service/service.go.tmpl (572B)
 // NAME-service/service/service_methods.go.tmpl (291B)
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x4d\x8f\xe4\x38\x72\xe8\x59\xfa\x15\x31\xc2\x7c\x48\xf5\xb2\x94\xb3\x0f\x78\x0f\xfb\x6a\x50\x0f\xaf\xbb\xba\xe6\x63\x77\xba\xbb\xb6\xbb\x7a\xe7\xd0\x68\xcc\x32\x53\xcc\x4c\x6e\x29\x25\xb5\x48\x55\x55\x6e\xbe\xbc\xf8\xb2\x06\x6c\xc0\x80\x4f\x3e\x18\x0b\x9f\x7c\x35\x7c\xf6\xef\xd9\x31\xf6\x5f\x18\x41\x06\x29\x2a\x53\xca\x8f\x9e\x19\x1f\x0c\x17\xb0\xd3\x29\x8a\x0c\x06\x23\x82\xc1\xf8\xa2\x76\x3c\x86\xab\x32\xe3\x30\xe7\x05\xaf\x99\xe2\x19\x4c\x56\x30\x61\x75\x59\xa4\xf0\xec\x25\xbc\x78\x79\x0b\xd7\xcf\xbe\xb9\x4d\xc3\xf1\x18\x5e\xf1\xba\x29\x0a\x51\xcc\x4d\x07\x78\x10\x79\x0e\xe5\x3d\xaf\x1f\x6a\xa1\x38\xa8\x85\x90\x30\x13\x39\xd7\x9d\x7f\xcb\x6b\x29\xca\xe2\x02\xd6\xeb\x94\x7e\x6f\x36\xde\x0b\x78\xc6\x14\xf7\xdf\xe2\xf3\x66\x13\x86\x15\x9b\xde\xb1\x39\xc7\x37\x37\xe6\xe7\x0b\xb6\xd4\x6f\xc6\x63\xb8\xb5\x73\xc0\xb4\x2c\x14\x13\x85\x84\x25\x57\x8b\x32\x93\xa0\x4a\x58\xb2\x3b\x0e\xa2\xc8\xc4\xbd\xc8\x1a\x96\x03\x2f\xb2\xaa\x14\x85\x92\x30\xab\xcb\x25\x48\x5e\xdf\x8b\x29\x97\x23\x44\xa3\xe6\xef\x1b\x2e\x15\xb0\x22\x83\x9a\xcb\xaa\x2c\x24\x07\xb5\xaa\xb8\x86\x84\x5d\x71\x45\xa5\xe4\x2d\x94\x11\x30\x09\x0f\x3c\xcf\xf1\x5f\x5e\x4c\xcb\x8c\xd7\x12\x01\x20\xbc\x8c\xd3\xf3\xac\xac\x69\xa0\x86\x36\xd2\x0d\x0c\x29\x35\x83\xb2\xa9\x41\x36\x55\x55\xd6\x48\x69\x55\xb3\x42\xe2\x6f\xc4\x4c\xb0\x5c\xfc\x81\x29\x51\x16\x08\x6d\x56\xd6\x4b\xa6\x64\x1a\x86\x62\xa9\x7b\xc4\x61\x10\x4d\x56\x8a\xcb\x28\x0c\x22\x5c\x3b\x7f\x54\xf8\x53\xa3\x21\x8a\xf9\xf8\xf7\xb2\x2c\xb0\x61\xb6\xd4\xed\xa2\x34\xff\x1d\x8b\xb2\x51\x22\xc7\x87\x82\xab\xf1\x42\xa9\xca\xfe\x6e\x6a\xdd\x2c\x55\x3d\x2d\x8b\x7b\xfa\x29\x8a\xb9\x8c\xc2\x30\x88\xe6\x42\x2d\x9a\x49\x3a\x2d\x97\xe3\x79\x79\x7e\x27\xd4\x18\xff\x67\x69\x11\x85\x01\x2b\x56\xd5\x04\xa2\x79\x59\xce\x73\x9e\xce\xcb\x9c\x15\xf3\xb4\xac\xe7\xe3\xaa\x2e\x55\x39\x69\x66\x63\xbd\xfe\xf1\x5d\x51\x3e\x14\x63\xdd\x3b\x0a\x83\xac\xa9\xf5\x22\x4f\x18\xda\x0e\x89\xc2\x80\x2f\x2b\x75\xca\xbc\xd4\x3f\x0a\x83\x99\xe0\x79\xb6\x64\xf2\xee\x84\xd1\xde\x98\x28\x0c\xa4\xaa\x9b\xa9\x3a\x61\xb8\x1d\x10\x85\x81\x12\x4b\x2e\x15\x5b\x56\x27\x0c\xf7\xc6\x44\x61\xf0\x50\xb3\xaa\xe2\xb5\x3c\x01\x40\x3b\x64\x97\xa5\xb5\xc8\x73\x36\x5e\x36\x8f\x51\xf7\x4d\x75\x37\x1f\xf3\xba\x2e\x6b\x2d\x69\x7b\x26\x72\x92\xa7\x5b\xac\xf8\xed\x19\xa0\x7f\x20\x22\xeb\xf5\x39\x88\x19\xf0\xf7\x90\x5e\x95\xc5\x4c\xcc\xd3\x5b\xb7\x13\x22\x96\xe7\x11\x44\x05\x53\x32\x82\xcd\xa6\x8b\x1b\xb6\x9e\x8b\x52\xff\x9b\xce\x51\xc2\x11\x14\x2f\xb2\xcd\xe6\x28\xa8\xf3\xba\x9a\x5a\xa8\x3b\x78\xea\x97\x83\x6f\xc6\x4b\xae\x58\xc6\x14\xdb\x9e\xf4\xe8\x29\x11\x7e\xbb\xe3\x07\xf6\x97\xeb\x60\xd1\xf1\xe6\xc2\xbd\x7b\x02\x00\xec\x1e\x1d\x45\x96\x96\xd8\xf8\xeb\x84\x29\xb0\x7b\x07\xc7\x24\x0c\xc3\x7b\x56\x43\x1c\x06\xdf\xc3\x25\xcc\x96\x2a\x7d\x5d\xd5\xa2\x50\xe6\x59\x2b\xb0\xf4\xaa\x5c\x56\xac\xe6\xa6\x89\xb4\x4f\xfa\x44\x95\xc2\xb4\x74\x96\x99\xbe\xe0\x0f\xaf\x79\x7d\xcf\x6b\xf3\xd2\x68\xb3\xf4\x45\x59\x5d\xe5\xa5\x6c\x5b\xd3\xab\xb2\x5a\x99\x07\x23\xbc\xe9\x77\x35\xab\xc2\x60\x3c\x06\xe2\xa7\x15\x43\xa3\xe3\xb1\xab\x56\x49\xe9\x93\x42\x8f\x6b\x95\x4c\xfa\x8c\x7e\x62\x33\xa9\x8f\xf4\x1a\xff\xc5\x06\xbb\xa5\xd3\xd7\xfa\x07\x36\x79\xdb\x34\xbd\xb5\xbf\xf1\x45\xbb\xfd\xb0\xb7\x28\xe6\xbf\x65\x79\xa3\xd7\xed\xe9\x95\xf4\x4b\xfc\xfd\x9c\xc9\xbb\x30\x09\xc3\xf1\xd9\x51\x7f\x70\x6d\xcf\x24\xb0\x4d\x87\xff\xc6\xfa\x04\xfd\xa6\x00\x86\xe7\xcd\x3d\xaf\x47\x20\xd4\x67\x12\x1a\xc9\x67\x4d\xae\x8f\xa9\x59\x53\x4c\x91\x0a\x12\xd4\x82\x29\x28\x38\x9e\x52\x25\x94\x95\xb6\x0d\xa0\xc4\xb1\x15\xaf\xcf\xed\x31\x80\x00\x27\x4c\x0a\x99\xc2\x97\x65\x0d\xfc\x91\x2d\xab\x9c\x8f\x60\x55\x36\xb0\x14\xf3\x85\x82\x8a\x49\x3c\x22\x3d\x84\x55\x09\xcc\x4d\x64\xe6\xa9\xea\x32\x6b\xa6\x5c\x22\x38\x56\x68\x09\x48\xbf\x66\x45\x96\x23\x8e\x0f\x42\x2d\x80\xb3\xe9\x82\x4e\x7a\x88\xed\xec\x09\x3c\x88\x9a\x67\xd0\x54\x88\x24\x03\x59\xf1\xa9\x98\x89\x29\x54\x4c\x2d\x52\x88\xbf\x51\x08\x50\x48\xa8\xea\x72\xc2\x26\xf9\x0a\x18\x2c\x85\x54\xc6\x4a\x80\x8c\x4b\x31\x2f\x70\xa8\x28\xee\xcb\x3b\x3c\xee\x39\xa0\xb0\x89\x29\x77\x56\x85\x46\x91\x23\x9c\x76\x05\x46\x06\x40\xb4\x94\x4c\x93\x70\x3c\x76\xd4\x9d\xe6\x82\x17\xaa\x4b\x5d\x55\xc2\xb4\xcc\x73\x3e\x55\x9e\x81\x92\xaf\x60\x5a\x16\x06\x1c\xcf\x3c\x73\x45\x14\xb8\x20\x04\x28\x45\x31\xcf\x8d\x61\x62\x68\x25\x90\xc2\x4b\x8e\x78\xf8\xf8\x8a\x42\xf1\x7a\xc6\xa6\x7c\x88\x13\x08\xcc\x4d\xd6\x6f\x24\x35\x38\x59\x6b\x95\x68\x63\x01\x37\xe0\x15\xad\x67\x5a\x2e\x27\xa2\xd0\x74\x5a\x12\x8a\x1e\x63\x47\x64\x4a\xa9\xa6\x2e\x40\x28\xa4\x2b\x22\x38\x65\x79\xce\x6b\xb4\x98\x98\x45\x36\x0d\xf5\x72\x76\x08\xba\x0e\x83\x37\x85\x5b\x1f\xcf\xd6\xeb\xd4\x8e\x30\x26\x20\x69\x82\xf5\xba\x66\xc5\x9c\xc3\xc7\x02\x2e\x2e\xc1\xf5\x79\x6e\x58\x86\x7a\x6c\xbd\xfe\x58\xd0\x18\x3b\x0b\x00\xb8\xa5\xa6\xb6\x31\x5c\xaf\x8d\x72\x35\xd6\xa5\x6d\x96\x87\xa7\x40\x01\x86\xd8\x5b\x44\x02\xde\xa4\xf1\x54\x3d\x02\x59\x69\x78\x34\xe0\xbf\x23\x14\x98\xb3\xf5\xfa\xab\x12\x11\x83\x8f\x45\xfa\xca\x98\xa0\xb7\xab\xca\x2e\x30\x81\x78\xab\x87\x31\x4c\xbd\x2e\x23\xa3\xe0\x12\x58\x87\x81\xb5\x5b\x75\x1b\x22\xca\xd3\x9e\x95\x23\x32\x38\x79\x12\x06\x78\x58\xd5\x35\x7c\x74\x09\x85\xc8\x11\x42\x40\xfc\x2a\x44\xae\x81\x84\xc1\x26\xb4\x6d\x16\x7a\x7a\x10\xa7\x64\x84\xf0\xc2\x8d\x23\x27\x12\xf3\x39\xbb\xf3\xc8\x13\xae\xd7\x7a\x23\x7f\xac\x38\x22\x9a\x6e\xb0\xf3\x39\xf8\x54\xfe\x58\xf1\x21\x42\x23\xac\xbe\x95\x49\x24\xba\xe2\xbd\x62\x92\xec\xb2\x1b\xd6\x6e\x71\xc8\xbf\x7e\x2e\x59\xc7\xc0\xed\xa8\xf5\x26\x81\xd8\x12\xc3\x6f\xd6\x14\xf3\xd8\x11\xd4\xfc\x3d\x2e\x84\x20\xa4\xf1\x21\x6e\x87\x41\x70\xef\x78\x27\x7d\xde\x21\x6a\x1a\x95\x24\x0c\x7a\xb8\xb6\xcb\x36\xe4\x9b\x6d\xbd\x37\xec\x08\x50\xac\xdb\xb3\xd9\xe7\x0d\x1e\x8e\x4f\xf2\xfc\xfa\x71\xca\x2b\xa5\xcf\x29\x69\x54\xac\xa3\x94\x3e\xa1\xd0\x65\xa1\xbd\x69\x5f\x48\xd0\x6c\x64\x08\xc5\xb3\x09\x1c\xa9\x9f\x8b\x2c\xcb\xf9\x03\xab\x8d\x17\xf8\x46\x5a\xbf\x10\x9d\xa0\xaa\xca\x57\xa8\x62\x50\x6d\x2a\x04\xbe\x74\xbd\xb5\xd7\xc5\xef\x79\xbd\x72\x6c\xc3\xfd\x82\x1a\x84\xdc\x36\x0d\xef\x65\x85\xa7\x06\xcb\xf3\xd5\xc8\xf5\x93\x30\x65\x05\x4c\xb8\x3e\x6b\x78\x86\xc3\x26\x2b\x28\x90\xec\xaa\xc4\x76\xfe\x38\xcd\x9b\x8c\x67\xc6\x0b\x9c\x70\x44\x01\xd7\x5c\xf1\x2c\xdd\xa1\x46\xdc\xe2\x34\x82\xe8\xb5\x62\xaa\x91\xd1\x08\xa2\x1b\x51\xcc\xa3\xc4\xed\xfb\x33\x47\x90\x64\x70\xbc\xc3\xd0\xa3\xca\xa8\xc5\x26\x4d\x53\xa9\xcd\x02\x2d\x3c\xa2\xa0\xe6\x8b\x4b\x58\xb2\xea\xad\x79\xf5\xce\x90\x7f\xbd\x41\xf1\xda\xde\x30\x3d\xbb\x25\x08\x82\xc8\x13\xa3\xe8\x02\xd6\x9b\x51\x18\xf8\x66\xe4\x26\x0c\x03\x3c\xeb\xbf\x47\x54\x10\x8c\x01\xe9\xd0\xc2\x99\xc4\x0c\xbe\x1f\x41\x79\x87\xaf\x2d\x62\x6f\xf9\xe3\xbb\x2f\xe0\xa3\xf2\x0e\xb1\x0d\x82\x8a\x15\x62\x1a\xb7\x16\xde\x2c\x8e\xae\x2d\x08\xbb\x6e\xf8\xec\x13\xf9\x19\x64\x25\x97\x50\x94\x0a\xf8\xa3\x90\xea\x0b\x90\x9c\xfb\x8c\x77\x3e\xa5\x36\xe9\x11\xa9\x24\x21\x79\xce\x78\xce\x15\x8f\x2d\x06\xfa\x5d\xbb\x00\x51\x4c\x5b\xf4\x6d\x1f\x38\x9e\x50\x62\xa6\x41\x5c\x5e\x42\x87\x64\x1a\x42\x10\xf4\xaa\x52\xb8\xf4\x30\x8f\x7b\xbb\x20\xee\xc1\x66\x9b\xe4\x66\xdb\x7d\xcb\x26\x3c\xe7\x59\x2b\x0d\x26\x84\x32\xe7\xca\xca\x2e\xca\xbb\xa3\x9e\x16\xe1\x87\x05\x2f\xdc\xdb\xd2\x13\x57\x02\x66\xa4\x6e\x64\x76\x19\x6d\x84\xc6\x74\x06\x13\x97\x61\x26\xb8\x23\xa6\x68\xd4\xd4\x62\xaa\xcd\xac\x76\x19\xf0\xb0\x10\xd3\x85\xde\x43\x92\x17\x7d\x28\xd0\x49\x4e\xa3\xad\x1d\x53\xd6\x74\x8e\xef\xae\x0a\x37\x49\x6c\x04\x78\xb4\xab\x85\x7b\x14\x73\x38\xb4\xae\x0f\xd6\x4d\x3b\x48\x8d\x68\x9d\x9a\xe2\x35\x9f\x72\x71\x8f\xaa\x89\x9b\x25\x96\xb3\xce\xba\x53\x78\xcd\xb9\x03\xe3\x41\xd1\x2f\xac\x21\x4a\x08\x5f\x3f\x22\xa2\x28\x91\x19\x57\x4c\xe4\x12\xed\x64\xbb\x9d\x10\x88\x35\x76\x59\x2e\xd4\x2a\xdd\xa7\x42\x3a\x6b\x8f\x97\x3f\x82\xa2\xff\xad\x67\xfe\xeb\xe8\x99\xce\xb0\x11\x9c\xa4\x76\x8e\x0f\x50\x1c\xeb\x7a\x7e\xf5\xea\xe6\x0a\xd7\xc9\xeb\x93\x7d\x4f\x34\xe3\xbc\xe1\x18\xae\x95\xad\x31\xe0\xf8\x03\xec\x9e\x89\x9c\x4d\x72\x6e\xdc\x86\xf9\xab\x9b\x2b\x18\x70\x06\x68\x3b\x75\x21\x3b\x0f\x51\xb6\xba\x61\x04\xa5\xb6\x1d\x24\xee\x87\x4e\x2c\x46\x8b\x37\xaf\x8d\x69\x91\x0c\x4d\x84\xec\x92\x5e\x47\x89\x32\xf1\xf6\xdd\x30\x24\x94\xde\xbe\xb7\x4f\xf9\xac\xac\x79\x8c\xd8\x3e\xa7\x98\xd2\x6d\x49\xd6\x67\x32\x42\xae\x6d\xcd\x73\x89\x86\x13\x2f\xb2\xb8\xd3\xec\xd6\x93\xa6\x69\xa2\x03\x1d\xeb\x35\xdc\x96\xdf\x96\x0f\xbc\x6e\x05\x11\x49\x85\xcc\xb5\xa6\xe1\xa7\x88\x11\xbe\xe4\xf5\x1a\xdd\xa4\x83\xd2\xbb\x5e\x5b\x98\x4e\xe4\x2e\xa0\xbb\x2c\x17\xa2\x89\x51\xa0\x1d\xe9\xfb\xa4\x14\x4d\x91\xe0\x99\x8e\x94\xe3\xfa\xbd\x1e\x64\x1d\xeb\x0e\xd7\x45\x6f\x07\xf2\x75\xb0\x47\x87\x12\x69\x9a\xe2\x30\xa4\xdd\x96\xf0\xa3\xf2\x6d\x17\xbc\xed\x3a\x3b\xe3\xbc\x9f\xdf\xce\xd0\x37\xa7\x9c\x07\xe7\x67\x70\x57\x77\x88\x0c\xb0\x45\x65\x8a\x87\x78\x06\x3d\xb9\x59\x14\xa8\x40\x55\xeb\xe1\xa8\xca\x76\xb9\xc7\xaf\xf4\x20\xaa\x7a\xb3\xc5\x12\xce\xda\xa9\x92\x16\xfc\x01\xff\x17\xdd\xa3\x9f\xd6\x01\xfe\x1e\x7d\xa4\xaa\xe3\x42\xed\x50\x52\xaf\x42\x4b\x93\xef\x54\x9d\xe8\x09\x57\x1f\xe8\x04\x13\x85\x8d\xc8\x1f\x26\xef\x78\x0c\xfb\x76\x07\x08\x54\x87\x4e\x26\x74\x8c\x38\x35\x03\xa8\xc7\x97\xc8\x1f\x1d\x27\xc2\x9c\x0e\xaf\x95\x34\x61\x24\x52\xa1\xbb\x62\x66\xbd\x5d\x0c\xe6\x60\xac\xaa\x3e\xcf\xca\x25\x13\xc5\xbe\xce\x29\xdc\xd4\x62\xc9\x6a\x91\xaf\x6c\x78\xcb\x8f\x85\x19\x8d\xbc\x6f\x1d\xf1\xf7\xbb\xc2\x81\x6b\x79\xc5\xdf\xb7\xc2\xa8\xdd\x6e\xef\xa9\x1b\xf8\xd0\x8e\x36\x8d\x39\xc6\xd1\x76\x9c\x7c\xbf\x87\x4d\xd7\xc5\xd1\x6c\xda\xab\xa3\x7a\xf9\x64\x46\xd8\x2e\x43\x8c\x3a\xcc\x02\x9a\x42\x33\x6c\x0f\x5b\xab\x7c\x75\x14\x9f\xf6\x2e\xa4\x8f\x51\x7d\x91\x90\x7d\x9c\x92\x15\xb2\xca\x8e\x3a\x62\x1f\x79\xcc\x92\x55\x1f\xb7\xbe\xe6\x39\x86\xd5\x43\x23\x68\xbd\x07\x69\xbf\x02\x5a\x66\x60\xd3\x38\xe9\xf3\x67\xc9\x76\x07\xc4\x17\xd5\xe8\xdd\x08\xee\x5b\x8b\x6f\xe9\x4c\xd5\xfb\x4e\x08\x46\x67\xa3\x39\xdc\xf1\x95\x66\x77\x86\x36\xed\xa4\x54\x0b\xa4\xb1\x9d\x85\xf2\xb8\x10\xdf\x25\xe4\x7e\x60\xd7\x3c\x87\x1c\xf9\x45\x50\x18\x39\x5d\x3a\xdc\x7a\xc5\x8a\xb2\x10\x53\x96\x7f\xcd\x59\xc6\xeb\x5f\xf3\x95\xf5\x4d\x70\x22\x59\x52\x10\x58\x91\xab\x67\x41\x4c\xa7\xdc\xc6\x3e\xb8\x50\x0b\x5e\xd3\xcc\xf8\x1e\x49\x71\xe9\xd6\xfa\x9d\x50\x0b\x9d\x87\x40\x12\x8d\xf4\x5a\xdf\x7e\xfe\x2e\x39\xd8\x71\x00\xbb\xf8\x2e\x69\x21\x90\xd5\x4f\xec\x9b\xaa\x47\x7d\x06\x5b\x1b\x70\xff\x9f\xe6\xa3\x89\x34\x9f\x6c\x57\xbe\xe0\x0f\xde\x68\x33\xbd\xce\x3a\x50\xe8\x08\x26\x6c\x7a\x87\xec\x59\xd9\x3d\x63\x42\xf4\xb8\xd6\x82\xeb\x8c\x47\x0a\xdf\x28\xe4\x23\x05\xfb\x49\x5c\xc5\x44\xa0\xcf\x66\x59\x40\xb1\x6c\x55\x42\x26\x58\x6e\x02\xde\x39\x53\xbc\x86\x29\x66\xa3\xd0\x09\xe7\x3e\x4c\x23\xa0\x1d\xec\x62\x7c\x6d\x8e\xcf\xd4\xe0\x7b\x55\x16\xc5\x1e\xe3\xd4\x74\xb2\xc6\x69\x3c\x60\x9d\xfa\x5b\x0e\x2d\x84\xed\x58\x6b\xe0\xb5\x56\x77\x73\xdc\x69\x36\xe4\xda\x2d\xb2\x08\x76\xbd\x1a\x3f\xc0\xda\xea\xc0\xe0\x9e\xd5\x7d\xaa\xc7\x9a\x7a\xbb\x2e\x69\x18\xac\xfb\x0d\x4a\x37\xe4\x72\xd7\xb2\x24\xaa\x69\xf1\x44\x42\x91\xe7\x59\xd6\x1d\xb4\x90\xfb\x38\x3d\xc4\xc6\x47\x84\xe8\x13\x99\x7e\x22\xa3\x76\xb1\x7e\x6f\xec\x99\xa0\x2b\xe5\x01\x13\x2d\x0c\x87\x57\xb4\xcf\x1a\x6d\xcd\xd5\x67\xfc\x90\xb9\x7a\x40\xe3\x99\x10\x5d\xd0\xda\xf3\xf8\x98\x38\xba\xc5\xda\x17\xd5\x8c\x21\xdb\xb6\xfd\x65\x7f\xb8\x4d\x67\x07\xc9\x83\xe6\x3d\x9c\x13\x28\x87\xb3\x1d\x7b\x81\xb9\x92\x3d\x7c\x1a\xb5\xf3\x06\x1b\xab\xa0\x51\x31\x23\x0d\x80\x76\xe1\x8f\x37\x79\xf6\x9c\xa5\xcf\xf8\x31\x67\xe9\xfe\xd3\xf1\x58\x93\x87\xce\xad\x81\xb3\xd4\x28\x12\xda\xe9\xcf\xf8\x89\x67\x29\x2e\xe6\x95\x46\xe6\xc8\xc3\x14\xbb\x3a\xc3\x07\x8f\xf8\x93\x8e\xd3\x2a\x5f\xf5\x9d\xa7\x3e\xdb\x7e\xbc\x09\x34\x6c\xa9\x5e\x17\x47\x58\xaa\x87\x19\xe2\x19\xac\x7b\x38\xbc\xd7\x52\xed\x70\x6d\xdf\x3a\xfa\x0d\x20\x5a\xe2\x71\x2c\x3b\x35\x25\xb4\xdf\x52\x25\x2c\xf4\x09\x2e\x6f\x4b\xdf\xf8\x31\x3b\xa5\xef\xf4\xa0\x79\x70\x9f\x18\x41\xdd\x03\x25\xbe\xe3\x2b\x09\x6f\xdf\xd9\x90\xe1\x01\x78\x47\xa5\xd4\x96\x19\x9c\x1d\x32\xbc\xf4\x79\x52\x31\x51\xb7\x93\x87\x81\x0d\x20\xde\xb5\xe6\x98\x46\x6f\x4d\x71\xb5\x7b\x1b\x3c\x9c\xaa\xc7\x54\xd3\x24\xbe\x4b\x52\x0a\x94\x26\x5f\x80\x0d\x22\x06\x06\xb0\x8b\xa4\xe8\x47\x63\xfc\xb8\xc0\x19\x2a\x51\x84\xa9\xdf\x75\x2c\xbd\xb3\x65\x86\x01\x39\xbb\x80\x5f\x95\xa2\x88\xcf\x96\xd9\xa8\x6d\xba\xc1\x31\xb1\x1e\x89\xe1\x98\xc4\x82\x23\xca\xa0\x25\x44\xd1\x38\xc3\xc9\x63\x63\x6d\x5f\xdf\xde\xde\x90\x6f\x62\xdb\x0e\xff\x8d\xc3\x50\x27\xfa\x0d\x95\x0b\x2d\x5e\x70\x09\x11\xab\xaa\x5c\x4c\x75\x69\x8b\xae\x16\xfc\x02\xa6\x0b\x56\x4b\xae\x2e\x1b\x35\x3b\xff\x65\xe4\x42\x74\x38\x2b\x85\x1b\x28\x9f\x8f\x82\xb5\xa0\x16\xbd\x67\x0f\x87\xee\x10\x58\x59\x40\x55\xf3\x8c\xcf\x44\xc1\x33\x5d\x95\x21\x69\xcf\x6d\x4d\x73\x30\x60\xd7\x2d\x0a\xea\x06\xec\xfc\x72\x11\x6b\xff\x88\x19\xa4\x1a\xbe\x76\x15\x3c\xbd\xb5\x15\x3b\x42\xd9\x79\xfb\x6e\x18\xba\xe6\x7f\xdf\x6b\x8a\xe2\x99\x39\xd0\x16\x96\x9d\x20\x5e\xff\xa0\x6b\xd4\xe4\x46\xdd\xd4\x31\xf7\x1e\x86\x87\x3c\x99\x29\x5e\xc7\xdb\x6f\xd4\x55\xcb\xda\xd8\x63\x73\xa2\x01\xed\xae\xf2\xa8\x10\x22\x45\x96\x74\xb8\x70\x89\x84\x59\x36\x8f\x68\x82\xbd\x2a\x1b\xc4\x21\x09\x3d\x8b\x82\x32\x20\x17\x97\x83\x64\x76\x5d\x27\x58\x6b\x52\xcc\x11\x20\x0d\x4b\x9f\x9a\x26\x8a\x8f\x2f\xed\x38\x1d\xe8\xa6\xee\x58\x15\x3c\x81\xff\x0f\xb7\xe5\x1b\xac\x7a\xdc\x6c\xa2\x24\xbd\x61\x6a\xd1\xe9\x83\x0d\xb7\x7c\x59\xa1\x0d\xae\x7b\x58\x71\x1a\xa8\x21\xd3\x01\xca\x6e\x84\x92\x30\xda\x31\x70\x9c\x5d\x87\xcb\xf3\xa6\xd4\x19\x1a\x77\x3c\x98\x8e\x86\xa3\xd8\xf1\x2b\x93\x68\xb3\xc7\xb0\x79\xdd\x17\xac\x0c\x74\xee\xa1\x8d\xe5\xf9\x3f\x49\x69\x2c\xc9\xa8\xf2\x85\xc6\x64\xf4\xb4\x97\x62\xcc\x02\x9b\x9b\xb3\x33\x7e\x87\xef\xeb\x11\x7a\x3a\x19\x9f\xb1\x26\x57\x78\xda\x19\x01\xc1\x1d\xa9\x43\x99\xe5\x0c\xb6\x75\xc1\x08\x18\x4c\xca\x4c\x3b\x9b\xa8\x1b\x8c\xab\x80\x2e\x67\xa4\xe7\x89\x9c\x97\x7a\x8f\x5a\x16\x41\xe9\xf6\x54\x63\x17\x27\xc6\x17\x62\x20\x75\xbe\x1c\x90\x1e\x08\xea\x7f\x7d\xfe\x79\x0a\xdf\x50\x6e\x0d\x7b\xfa\x31\x58\xb3\x6f\x78\xad\xcb\xb1\xb1\x47\x55\x97\xf7\x02\xdd\xe8\x85\x7e\x83\xa5\x06\x79\x8e\x09\x7c\x8d\xad\x49\x69\x62\xbf\xd6\x26\xf3\x41\x23\x14\x0f\x3a\xae\x22\x7d\xce\x6a\xb9\x60\xba\x8c\xcc\xe2\xbf\x34\x4d\x58\x03\x20\x9b\xe9\x94\xf3\x4c\x1a\xbf\xed\x57\xaf\x5f\xbe\xa0\xaa\xee\xcc\x96\x60\x5b\xc7\x4f\xaf\xd5\xa1\x83\xe9\xd5\xe1\x65\x99\x92\x01\x2c\xaa\xaf\x47\xd6\x9d\x74\x2b\x6b\x5f\x76\xa0\x81\x28\xa4\xe2\x2c\xb3\x34\x33\x4a\xd2\xd7\x10\x7d\x86\x88\xab\x3e\x19\xc1\x83\x29\x9a\xeb\x8a\x81\xb6\x19\x91\xab\x23\xf8\x1e\xb7\x9f\x4f\x12\xa3\x7e\x30\x83\x59\xf1\x7a\xad\xb9\x78\x81\x6b\xb1\x0c\x45\x4b\x44\xcc\x2c\xb5\x90\x80\xe6\xa0\xc5\x2e\x71\x97\xb6\xed\x39\x2b\x66\x80\xaf\x9e\xea\x29\x69\xe8\xb5\x09\xcd\x3a\x40\x76\x1c\x92\x3b\x4e\xbe\xb0\x33\x60\xb7\x4b\xef\xcc\x45\xb4\xe1\xd2\x81\xb3\xc1\x85\xe0\x21\x35\x62\x13\x27\xe9\x6b\xae\xe2\x88\x14\xe1\xf9\xed\xaa\xe2\xd1\xc8\x3f\xf2\xcc\x02\x16\x56\xc8\x7c\xfc\xbb\xea\xc1\xca\x61\xbb\x0e\xb4\x3a\x3c\x93\xc3\xc2\xa0\x9e\x32\xd6\x84\x0d\xb6\x71\xb9\x1b\xf5\xf4\x4c\xbf\xe2\x2a\xbe\xb3\x99\xc6\x4d\x18\xe8\xad\x71\x61\xca\x5c\x53\x23\x0e\xdf\xa0\xe9\x58\xb0\xdc\x3b\x24\x34\xee\x72\xba\x07\x6b\x4f\xcc\x5a\xc4\x35\xf0\x4b\x90\x53\x82\x8c\xaf\xc9\x7d\x7c\x48\xb5\x50\x10\xc6\xd8\x31\x71\x8d\x31\x52\x3b\x41\x7d\xd3\xca\x9d\xf1\x65\xea\x78\xd2\xcc\xe0\xed\x3b\xac\xdc\x4d\x48\xd6\xd7\xa1\xb6\xd5\x1e\xc0\x17\x21\x17\x51\xb7\x72\xf6\xa6\x20\xce\x22\x84\x11\x7c\xfa\x90\x7c\xb1\x1d\x71\x37\x56\x8a\x14\x7f\xe0\x70\x09\xbf\xfc\xc5\xff\xf9\xdf\x46\x84\x72\x5e\xe0\x98\x04\xfe\xaf\x79\x87\x5d\x03\x44\xe3\x12\x26\xcd\xec\xed\x05\x36\xbe\xa3\x63\x8e\x74\x25\x96\xa1\x68\xba\xcd\xe2\xc8\x6a\x07\xc0\x45\xe9\xcc\xf0\x05\x06\xcb\x30\x31\x5c\xa1\xb9\x03\x45\x59\x9c\xa3\x5c\x39\x43\x1e\x3b\x46\x23\x04\x4e\x59\x5f\x82\x4a\x95\xc4\x2f\xf8\x43\xfc\x60\xf6\x85\xa6\x91\xd6\xa1\xfe\xda\x6d\x1d\xc2\x3a\x0c\x74\x2f\x7c\x46\xfd\xf2\x3b\x9c\xe5\x82\x14\xe8\xef\x48\x9d\x23\xdf\xa9\x17\x53\x42\xce\x04\x5e\x38\x59\x70\xa7\x0d\xb5\x22\xf5\x98\xdb\xba\x19\x12\x84\xbe\x1b\x62\x2f\xc8\x1c\x53\x00\x9e\x9a\xe4\x95\x37\xa9\x43\x55\xa3\x85\x97\x1a\xec\x54\x38\x53\x18\x58\xdd\x0b\xe0\x97\x07\x38\x93\xdc\xca\x48\xbc\x68\x81\x26\x9e\xce\x8b\x13\xe8\x16\xda\x2d\xd2\x76\x86\x81\xd1\xed\xb6\xc2\x46\xda\x3b\x1d\x10\x84\x54\xd8\x89\xd6\x6f\x47\x18\x0e\xda\x24\x5e\x60\xeb\x80\x51\xe2\x82\x12\x7b\x4f\xff\x6d\x27\x57\x63\xdf\x9f\x8e\xd1\x09\x5a\x73\x45\x08\xc7\xa0\xf2\x3b\xa7\xb3\xc6\xf7\x5f\xed\x3c\x37\xac\xe6\x85\x22\x9f\xd0\xc9\xa9\x2e\x5f\xc3\xe3\x08\xb1\xb2\xad\x1a\x32\x4a\xf0\xa1\x68\x7f\xe0\x85\x28\xf6\x2e\xab\xd7\xe7\x85\x33\x3a\x60\x74\x97\x61\x7f\x37\xc8\xf8\x8c\xd7\x50\xa7\xa8\xb5\xd3\x2b\x0c\x8b\xa2\x02\xd2\x1a\x03\x7d\xe1\xd6\xfd\xdd\x5a\x2b\x41\x46\xcd\x8d\x46\x10\x6e\x78\x97\xd7\xa3\xaa\xff\x57\x9c\x65\x4f\xf2\x3c\x36\xc0\x8f\xab\x8c\xb4\x57\x01\x66\x78\xe0\x8d\x20\x22\x4d\x50\xe3\x61\x6b\x0d\x1e\x5c\x99\x25\x67\x44\x9a\x7a\x4b\x11\x7d\xae\xd7\x16\x34\x56\xa9\xa1\x6b\x74\x71\x09\xee\xea\x4b\xab\xee\xc8\xce\xd3\xdd\x83\x27\x79\x5e\x3e\xdc\xb0\x5a\x09\x96\x63\x54\x4d\xd5\x0d\x19\x85\xcf\x84\x9c\xb2\x3a\x7b\x53\xe8\x6b\x4a\x17\xed\x1b\x5b\x32\x82\x4b\xbf\x04\x7f\xc2\x1d\x95\x8a\x99\xcc\x1d\xa5\xda\xaf\x56\x87\x15\x6b\xaf\x6a\x25\x34\x3a\xc4\x74\x1b\x76\xdd\x43\x56\xa2\xde\x07\xe9\x5c\x43\x90\xc0\x3b\x10\x9f\xb2\x8c\xc4\x81\xde\x21\x02\x2d\x5a\xce\x5b\x47\x8f\xf2\x86\xd5\x6c\x29\xad\xbb\xf2\x5b\x56\xcb\xb8\x46\x1e\xe2\x55\x90\xf6\x3d\xfa\xf6\xef\x1b\x5e\xaf\xda\xee\x75\xfa\xe6\xd5\xb7\xe9\x6f\xb0\x31\xb6\x03\xbc\x2e\xa1\xef\xc3\x98\x6a\xd8\x8b\xcb\x56\x6a\xf5\xad\x0d\x72\x60\x74\x8d\x4d\x61\xbb\xa5\xdf\x96\xc6\xb0\x86\x48\x2f\xd2\xf4\xc1\x38\xab\x86\x92\x7e\xc5\x0b\x3d\xa9\xe3\x26\x7a\x37\xfd\xe1\xdd\xfd\x28\xbc\x2c\x78\x39\xdb\xc1\x83\xbf\xdf\xc5\x43\x2f\xeb\xc7\x20\xe2\xb6\xd5\xa7\x35\x7f\xdf\xa6\xc7\xc9\x69\xd1\x91\x64\xdb\xb5\x8d\x0c\xf6\x38\x44\xbd\x1a\x73\x28\x31\x6a\xf4\xa3\xb4\xde\x81\x3b\xd7\x99\xd4\xfa\x73\xdb\x1b\x30\xbe\x51\x7d\x42\xd2\xb3\x07\xc1\x3e\xdd\xd7\x6b\x5b\x0f\xe5\x41\x9d\x89\x34\xa4\x28\x9e\xef\xa8\x89\x6d\x25\xe1\x74\xc1\x1b\xc9\x6f\x50\xc1\xa0\xbe\x94\xbe\xfa\x78\x23\xf9\x75\xd1\x2c\x5f\x34\xcb\x09\xaf\xe5\x45\xfb\xe2\x7a\x29\xd4\x9b\xa2\x2a\xab\x06\x5d\xe2\xcc\xa9\x95\x4d\xd8\xd1\xa7\x2d\x6e\x16\x1d\x57\xdf\x9e\xc6\x1a\xd5\xf4\x39\x97\x92\xcd\x79\xb2\xaf\x54\xc2\x8a\xc1\xf7\x23\xd2\x56\xce\x9c\xd4\x96\x94\xd7\xcb\xcf\xdb\xba\x72\x48\x49\xc6\x40\x5f\x0c\xa5\x3f\x8e\xb8\x73\x0a\x0d\x25\x70\x5b\xdb\xdd\x9a\xe2\x5a\xd9\xed\x4b\xd9\x22\xe0\xdd\x74\xed\x82\x49\x58\xb0\xcc\x8c\x1d\x4a\xd0\xea\xb4\x60\x86\x55\x9f\x02\xa3\xc2\xad\x7c\xfb\xf7\x85\xd5\x82\x1b\x28\xc6\x90\x92\xa9\x3d\xf4\x5d\x5e\x18\x85\x19\xa3\xad\x2e\xac\x68\xd1\x21\x27\x14\xbd\x71\x59\x1a\x20\xdd\x2c\xf0\xde\xfc\xef\xde\xac\xee\xdd\xc8\x51\xc8\xf3\x54\xf6\x0e\xd9\xc2\x5f\x27\x80\x77\x61\xa0\xf2\x42\x72\x37\x05\x6f\xef\x65\x4d\x17\xa8\xcb\x52\xfd\x86\xe5\xb2\x04\x96\x65\xb4\x87\xb5\xb6\x87\xa6\xce\xc3\xfd\x69\xe8\x88\xba\x9e\xe3\xed\xe5\x11\x29\xf1\x1b\xa6\x16\xc9\xa1\x81\x8e\x2b\x58\xcd\x8f\x32\x87\x4a\x24\x4a\x3e\x38\x5f\x8d\x20\x28\x69\x62\xdb\x4e\xc8\x57\x7b\xa3\xdb\x10\x6b\x4f\xba\xba\x00\xec\x49\xda\x0b\x72\x71\x8f\x56\x2b\x53\x44\xb5\x65\xa9\x74\x7c\x01\xc3\x07\xac\xc0\xcb\x5f\xdf\x61\x25\x7f\x65\xae\x99\x99\x36\xd4\x93\xd3\x72\xc9\xcd\xed\x87\x76\x92\x4c\xc8\x29\x5e\xde\x5f\x81\x5c\x49\xc5\x97\x23\x90\xba\xbc\x3c\x17\x77\x3c\x5f\x59\xa1\x43\x31\x82\x68\x51\x4a\x75\x81\x12\x1d\x91\x02\xed\xac\x20\x76\x53\xd9\x0a\xe5\xc1\xc8\xed\xe9\xd9\x6c\x31\x83\x8f\xac\xc8\x7d\xcd\xe4\x4d\xcd\x67\xe2\xd1\xcd\x38\x82\x08\x77\x65\x64\x3c\x72\x87\xc7\xa5\x69\xbe\x18\x8f\x23\xf8\x1f\x8e\x12\x28\x95\x41\xe3\xb4\x60\x53\xe7\xe9\x0d\x5a\x27\x0e\xda\xd1\x75\x61\x68\x5c\x34\x21\x5d\xff\x45\xcf\xb2\xc7\xe3\xa0\xfc\xaa\xb9\x27\x11\xbd\x28\x0d\x23\xbd\xf0\xb6\xa9\xd8\xd7\x04\x31\xc1\x20\x04\xf4\x50\xd6\x77\x23\x30\x21\x73\xa0\x93\x1e\x1d\x3f\xbc\xc8\x57\x1b\x7b\xd3\xbc\x15\x48\xc2\xa8\x0d\xdb\x62\xc1\x59\x70\xbc\x2f\x14\xac\xd7\x20\x66\x3b\xce\x0f\x21\x8d\x6f\x75\x04\xd0\x1a\x1b\x08\x49\x14\x19\x7f\xdc\x1d\xf1\xb9\x1d\x43\x15\x01\xdb\x5e\xc5\xbe\x82\x00\x34\x36\xf4\x7f\x83\x3d\xe3\x7a\xae\x04\x7b\x55\x01\x54\x89\x3e\x18\x36\x26\x0b\x32\x98\x96\xd5\xea\xcd\xab\x6f\xe3\x66\x04\x7e\xff\xa7\x4c\x72\x54\x1f\x18\x3e\xb6\x5d\x5b\xeb\x60\x17\xab\xae\x5d\xda\x8d\x11\x13\x65\x7a\x0a\x00\x76\xb2\xfb\xc1\x76\x82\xdf\xda\xb6\x2d\x37\x3b\xbf\xdb\x9f\x4e\x5d\xf5\x66\xfa\xf7\xf2\x1d\xce\x7f\x2e\xce\x0f\x05\xd2\xa9\x92\x60\x9b\x88\xf6\x35\x15\x47\xec\x5d\xaf\x57\x61\xa0\x35\x8f\xe5\xe3\x84\x49\x0e\x67\xb8\x87\xdf\xbc\xfa\x76\xa4\x93\x4b\x74\xb4\x26\xae\x19\xf7\x6f\x81\x76\xc1\xc5\x25\x9c\xe1\x00\xf3\xa8\x13\x09\xe4\x1e\x38\x72\x7e\x8a\x6f\x28\xc0\x70\xa5\x1e\x6d\x6a\xf4\x35\xda\xb7\x53\x5d\x3b\xdf\xd4\x14\xaa\x41\x71\xb4\x1b\x57\x95\x50\x35\x79\xae\xdb\xe9\x9c\xe3\x19\x5a\x18\x12\xca\x06\x8f\x6e\x6b\xbe\xd2\xb1\xa4\xc3\x3b\x74\xec\x2d\xad\x09\xeb\x3b\xa0\x68\x2b\x50\xb8\x23\x05\x78\x51\x2a\xba\xf7\x8b\x20\x11\x96\xd6\x14\x0b\x76\xcf\xc1\x7e\xcf\x63\xbf\x49\xa2\xe7\x99\xe8\x6c\x15\x5d\x7d\xd3\xb7\x7c\x50\xf3\x5b\xd4\xf0\x16\x35\xc5\xf7\x99\x2d\x82\xd2\xb6\x07\xae\x6a\xe5\x02\xd5\x2e\xb5\xe7\x5f\xcc\xe3\xb5\x3b\x70\x29\xb5\xdc\xa5\x9d\x49\x27\x7b\x57\x50\x86\xcf\x03\x3f\xe2\xd3\xd3\x89\x32\x6e\x7b\x2e\x6e\x1e\x61\x1d\xfe\x64\x09\x65\x67\xf1\x50\xe4\xd7\xcf\x23\xbb\x33\xc3\xe4\x7d\x13\x94\x2a\xa4\x35\x6a\x94\xa1\xf2\x98\x83\x0a\x7b\x3b\x24\xd5\xab\x6c\xf6\x46\xa4\xb6\xfd\x2b\x0a\x47\x19\x6b\x6c\x3b\x24\x65\xa3\x34\x34\x8d\x1d\x6d\xc2\x33\xad\xef\xb3\x1d\x92\xa2\x66\x74\x7c\x8d\x99\x47\x59\x12\xf7\x06\x0d\x6a\xa6\xc3\x01\xff\xf3\xf3\xcf\xfd\x74\xd1\x08\x1e\x28\x27\xa2\x03\x9e\x55\xcd\xd1\xc8\x61\x7a\x3f\xb0\x42\xc3\xd2\x46\x81\x16\x54\xa6\x14\x7e\x99\x01\xf7\x8f\x59\x85\xbf\xff\x28\x80\x0d\x4b\xe3\xc2\xb4\x38\x5a\x24\x0e\x86\xcc\x6c\x79\x48\x4f\xc8\xac\x97\xec\xfb\x23\x66\x66\xd2\xd3\x43\x66\xa7\x44\xc0\x2e\xb1\x4b\x7a\xfd\xf2\xcb\xc1\x20\x18\x46\xb1\xdb\xd8\x38\x0a\x86\x26\x01\x20\x1d\x57\x7e\xd4\x6b\xcb\xfc\xe9\x83\x85\x01\xb5\x9e\x78\x9a\x03\x4a\xe0\x0c\xbc\xda\xcb\x45\xc0\x47\x9d\xc4\xc7\xcb\x5f\xef\x9d\x62\x16\x6f\x67\x22\x92\x11\x44\x9e\xcc\x5c\xc0\x67\x9f\x64\x9f\x45\xa3\xce\x1c\x6e\x6e\x34\x47\x70\xc1\x87\xa4\x39\x3c\x39\xae\x37\x18\xd6\x1b\x8a\xea\x6d\xc2\xe3\x63\x7a\xb2\x4a\xbe\x38\xcc\x04\x9f\x28\x76\xc1\xd4\xe9\xd3\xb6\x6e\x3a\xe8\xc6\x65\x7c\x05\x74\x5d\x9c\xa8\x80\x5c\x4f\xcf\x30\xd8\x31\x09\xce\x49\x55\x1d\x61\x42\xed\x8d\x05\xb9\xe8\x79\xe8\xbc\x5d\x0a\x07\x01\x3b\x3e\x60\xae\xbf\x51\x81\x3b\xff\x9e\xd5\xa2\x6c\x24\xe0\x71\x82\x56\x18\x9e\xcb\xc1\x78\xbc\x7b\xf8\xc6\x68\x47\x8c\x40\x07\xcc\x4c\x4e\x1b\x37\x49\x62\x55\xc1\x11\xcb\xda\xaf\x0b\x74\x97\x81\x12\x32\x17\x3a\xc2\x0f\x4d\xdd\xb3\x1c\x79\x11\x45\x14\x99\x34\x4d\xfb\xbf\x31\xb0\x45\x0c\x9a\xcd\x08\xb9\x8d\x70\xd6\xfc\x7d\x18\x6e\x1d\x5f\x83\xae\xf1\x76\xbf\x61\xdf\xdb\x44\x25\x5e\x6b\x9d\x8d\x17\xf1\xd5\x02\x03\xbf\x6c\xc9\x15\xa6\x6d\xf0\xb6\xb8\x5a\x20\xda\xd6\x93\xd3\x35\x54\x36\xa9\xb4\x75\x95\x52\x72\x1d\x1e\xea\xc4\x3a\x71\x96\xd7\xa6\xdd\x05\x3b\x6d\xc7\xcd\xf6\xcd\x53\x34\x19\xa3\xb1\xc6\xbf\xcf\xdb\x43\x5c\xf6\x27\x0f\xb6\x75\x10\xea\xb9\xb2\xc9\xb3\xe2\x33\xd5\xee\x5e\xb3\xca\x4f\xde\x47\xc6\xf8\xb4\x1a\xd4\x50\xe5\x15\x7b\x20\x23\xb3\xb1\xbf\xdd\x3b\xf7\x02\x7f\x6c\x51\x4e\x0b\x5e\x97\x74\xba\xe0\xa2\x37\x62\x8d\x0a\x4e\x2d\x2b\x4a\xcf\x12\x83\xd5\xb2\xea\x92\x73\x28\x76\x0d\x96\x8e\xe7\x70\x5c\xd8\x58\xcc\xf4\x86\xa0\x6e\xaf\x78\xc5\x31\xc6\x68\x87\x7d\x23\x9f\x32\x4f\xa3\xb6\x90\xe3\x2b\xfb\xa5\x3e\xea\xf9\x55\x89\xbd\x20\xb2\xec\x8f\x12\x3b\xc2\x2c\xf5\x6d\xe4\x42\xd4\xbf\x71\xf1\x78\xaa\xc8\x7e\x67\x44\x38\x75\x3d\xae\xd8\x92\xe7\x6d\xed\x3a\xc9\x41\x2e\xdd\x33\x19\x7c\xde\x85\x8e\xa1\xf1\x36\x1f\x42\x68\xa4\x4f\xb2\x2c\xde\x83\xca\xc8\xfb\xbc\x55\x7c\x8f\x31\xaf\x36\x6f\xd2\x91\xc6\x3e\x22\x5b\x1a\x10\x05\x6c\x3f\x4a\xd2\x0c\x61\x98\xc0\xe5\x25\xfc\xc2\xe1\x39\x1e\xe3\xa5\x2b\xf3\x81\x20\x4a\x39\x6b\x31\x85\x09\x07\xfc\xc8\x51\x81\x46\xbc\x36\xec\x68\x80\x5a\xd2\x5d\xb9\xad\x5a\x90\xc1\xf9\x68\x5c\xcf\x4e\x09\x7a\x77\x0b\x6d\x96\x19\x13\xb9\x29\xd7\xb1\x7b\x65\x68\x86\x88\xc8\x16\x6c\xba\xb4\x47\xab\x7a\x2f\xed\xcd\x7a\x63\xb5\xac\xf6\x52\x7e\xbd\xe6\x39\x86\xe8\x67\x50\xd6\x10\xa3\xa5\xb2\x23\xae\xc9\xb6\x44\x5b\x66\x20\x0f\xc7\x67\x78\x8d\xa4\x29\xb0\xce\xd1\xda\x93\x65\x4d\xf1\x2d\xfd\x85\xc9\x66\x89\x07\x19\x42\x96\x78\xac\x9e\x8d\x9d\x53\xbc\xb3\x65\x5e\x2b\x56\x5f\x3f\x56\x5d\x44\xec\xac\x6e\x13\x88\xd9\x20\xb5\xb6\x38\xb0\x25\x64\x1f\xc8\xdd\x7e\xe6\xfe\x84\xbc\x25\xf4\xe8\x50\xb3\x67\x80\x66\x5d\x78\xd2\x7e\x33\x10\x92\x1f\x43\xdc\x4d\x1f\xe5\x8c\x90\xd8\x2e\xeb\xf5\xf8\xec\xcf\xff\xfc\x57\x3f\xfc\xe9\x1f\x7f\xf8\x87\x7f\xf9\xe1\x6f\xff\xf8\x97\xbf\xff\xeb\x7f\xff\xd7\x7f\xfb\xf3\x9f\xfe\xe6\x87\x7f\xfa\xe3\x5f\xfe\xf8\x77\x3b\x0c\xde\x9a\xff\x38\x36\xfa\xa4\xfe\x00\x75\x73\x36\x04\x7a\x67\x33\xf8\x2b\xfb\x80\x89\x0e\xcd\xd3\x06\x6f\x1c\x51\xbd\x73\xc5\x3d\xd1\xc3\x66\xd3\x3d\x9a\x4a\xcc\x60\x0e\xe5\x34\x77\xcf\x27\xdd\x7d\xf8\x7c\x6a\xc1\x56\xce\x7e\x30\x43\xc8\x76\x87\x0e\xdf\x9c\x42\x30\x9b\xb9\xab\x11\xa8\xcd\xca\x8f\x1d\xd8\xf9\x60\x05\xd1\x86\xba\x7a\xc4\xd1\x55\xfe\x16\x04\xd5\x08\x91\x15\xe6\x45\x10\x0e\xec\xd8\xaf\xb8\x6a\x81\xd0\xad\x6a\x4b\xf5\x41\x8d\x7c\xea\xb6\xed\x9d\xc4\xe9\x64\x2b\x45\xfb\xf6\xee\x8e\x54\x11\xb0\x43\xdb\xb7\x5f\x42\x7f\x62\xfa\x1e\x8d\xda\x96\xc4\xf7\xd3\x7e\x07\x73\x5f\xdc\xb7\x1e\x3b\x4f\xf4\xa0\x23\xf4\xad\x7d\xa8\xd1\x80\x4b\x20\x24\x8d\x6b\x11\x6b\x53\x9a\x64\xbe\xf0\x6c\x7a\x1d\xd7\x8e\xe6\x5c\x99\x0f\x75\xfa\x36\x23\x7a\x28\x5d\x93\x51\x95\xaf\xb8\xfa\x50\x2f\xe1\x18\xd3\xf1\xfc\x40\xc1\x41\xb7\xf0\x61\x7c\x06\x2f\x8b\x7c\xa5\x3f\xfa\x85\x08\xeb\xde\x92\x12\x9f\x72\x61\x4d\x16\x8a\x2a\xe2\x58\xcc\x45\xe1\x3d\x59\x4d\xd9\x52\x2d\xfc\x62\xe0\x72\x29\x14\xda\x9d\x59\xa3\xbf\x4c\x84\xf1\x0b\x51\x70\x29\xe1\x6c\x4c\x33\xea\xe5\xf7\xaa\xad\x03\xd6\x63\xab\xcd\x3a\xfc\xa3\x1d\xb3\x1d\x1a\x78\x7e\x38\x30\xd0\x46\x06\x06\x73\xf9\xc3\xc9\xfc\xc1\x6c\xbe\xde\x3b\x78\x97\xc6\x39\x37\x0e\x43\x5f\x85\x7c\xb8\x8f\x63\x5c\x6d\x1d\xca\xc1\xf0\x1b\xea\x26\xf8\xe4\x3e\x1a\x81\xa6\x6c\xeb\xe9\x3c\xc5\x0e\x2e\x38\xe5\x3e\xca\x1a\x63\xb5\xa8\xc4\xab\x03\x4f\x9b\xd9\x8c\xd7\x31\xe2\xea\x17\xbc\x83\x5f\x52\x42\x71\x8a\x60\xf7\x4b\x75\x07\xbf\x5d\xe3\x3e\x5c\x7b\x6c\xce\xf6\xc5\x93\xdb\xd7\x54\x3d\x68\xdb\x0e\xff\x8d\xdb\xa2\x43\x1c\x0f\x26\xce\xed\x9e\xe9\x46\x2f\xe2\x82\x88\x16\x23\x90\xf5\xbd\x79\x76\x1f\x22\x24\xcf\x7e\xf7\x1b\x88\xc7\x5e\xb6\xed\xbb\x36\xfb\xba\x99\x38\x01\x40\x1c\xf0\x28\x6f\xf8\xeb\x66\x22\xa7\xb5\x98\x98\xcf\x06\x6d\xdd\x7a\xdd\x6c\xfc\xaf\xb2\xa0\xb7\xdf\xd7\x07\x75\x75\x7d\xef\xf7\xd4\x40\xf8\x73\x39\xd7\x8b\x4d\x0e\x4a\x16\x49\x08\x06\x1c\xfa\x11\xf7\x6e\x90\x7a\x62\xb0\x5e\x77\xbe\x6c\xc2\xee\xb8\xc7\xb0\x63\xbf\x16\x84\x43\x8e\xf8\x5a\x50\x0b\xf9\xe0\xe5\xa3\xce\x57\x91\x53\x47\x60\xba\xd2\x91\xf8\xbc\x1e\xf8\x4a\xd0\x7e\x08\x54\x9a\xf2\x21\x1f\x0b\x0a\x86\x20\x77\xae\x1a\x61\x27\xbf\xe1\xe7\xff\xcc\x50\x4b\x91\x83\xf7\x90\x49\xbc\x9d\x74\x5c\x40\x77\x4d\x78\x7b\xc7\x2d\xeb\xa4\x4f\x0c\x21\x8b\xbd\x1e\x74\xd2\x8d\xe8\x9b\x09\xd7\x45\x6f\x1f\x2f\x6b\xdb\xf6\xd8\xaa\x12\x3b\xf5\x1b\x44\x9e\x7c\x78\x17\x45\x4e\xff\x06\x91\x07\xc7\x95\x9c\x1f\x26\xae\xb7\x3c\x00\x38\xeb\x52\xb7\x25\xed\xce\x97\x85\x68\xa6\xed\x4c\xd5\xd0\x3c\x5e\xae\x04\x49\xb6\x5e\x77\xc9\xde\x9f\xb3\x5b\xca\x39\xa9\xce\xe7\x72\x3e\x9c\x22\xd9\xad\x1e\xee\xbb\x3c\xbb\xe7\x0e\xc2\x52\xce\xd3\x67\xfa\xc4\xec\xaf\x9a\xed\x2b\xf2\xb0\xb2\x3c\x70\x13\x97\xc8\x43\x71\xf4\xb6\xec\xb1\x47\x5e\xb6\x43\xdd\x7a\xc1\x47\x94\x3d\x62\xe8\x06\xca\xc9\xef\xb1\x9c\x87\x22\xd9\xd2\xf1\xcb\x7e\xe3\xe5\x39\x2b\x56\x3a\xc8\x73\x8e\x39\x5d\x5b\xde\x63\xbe\x05\xd9\x60\xec\x03\x53\x68\x88\x1e\xaa\xce\x42\x0a\x4c\xe0\xd2\xdd\x30\x52\x87\x83\x78\x0f\xe4\x59\x71\x5e\xf2\x04\x46\x50\x4c\x3b\x67\x9f\xcb\x30\xf5\x87\xb6\x2d\x9d\x3b\x32\x68\xe6\xc7\x25\xf8\x13\xd3\x44\x38\x43\x0b\x36\xf1\x76\x94\xd6\x68\x48\xda\x07\x24\x9b\x90\xb8\x3c\xe5\xdf\xa4\x62\x6e\x98\xf9\x8a\x26\xd3\x69\x71\x40\x57\x48\xa6\xf0\xa2\xb4\x11\x1d\x04\x68\xf2\x92\xda\x2a\x6c\x2b\xf2\x28\x8b\x1e\xfd\x3f\x2d\x89\x11\x5d\xa6\x68\xe7\x6e\xef\x7d\x7c\x69\xa2\x22\x93\xb2\xcc\x01\xec\xc5\x0f\x1a\xf6\x3b\x7b\x2d\x84\x68\x66\x5f\xf3\x9a\x6e\x85\x68\x26\x6c\xeb\xe8\x03\x17\xbe\xf6\x30\x21\x41\x84\x5a\xd3\xa0\xe3\x59\xba\x59\xd6\xda\x96\xec\xb9\xf1\xd5\xbb\x31\x5c\xd1\x53\x31\x4d\x6f\x9a\x49\x2e\xe4\x22\x26\xee\x4c\x76\x58\x42\xa9\x29\x77\x75\xb8\xbd\x25\xc7\x48\x76\xa6\xac\xae\x05\x97\x23\x74\xec\xb1\x64\xd2\xc4\xcf\x5a\x76\x91\x5c\x6e\x43\xd4\x76\x64\xff\x65\x24\x8f\x2b\xf8\x7d\xfd\x9d\xfd\x8f\x23\x47\xf0\x29\x5d\x0a\xfb\x88\xa7\xc4\xb0\xee\xde\xf7\xb7\x3d\xd9\xc7\x98\x36\xe5\xde\xe5\x9f\x53\x2c\x4d\xca\xb4\xd9\xb6\x13\xaa\x03\xbd\xd1\x07\xbe\x66\x83\xcb\xfe\xcf\xfe\x9a\x4d\x8b\xdd\xae\xed\x3b\x68\x36\x91\xd8\xf0\xfa\x94\xe2\xbf\xe1\x4f\xd9\xf8\x87\x91\x6f\xc1\x7a\xe7\x9e\x2d\x48\xdb\xb1\x3f\xf7\x57\xa4\xad\xc9\x6b\x1d\x1e\x76\xb9\xa5\xbf\x5e\xf0\x07\xb7\x3a\xaa\x49\x73\xdf\xaa\x09\x82\x5e\x13\xdb\xb7\x5c\x22\xea\xd8\xa3\x86\xfd\x5a\xb3\x67\xfc\x90\xbd\xb2\x5b\x64\xb6\x5d\x63\xd6\xa9\xe9\x77\x87\x99\x15\xf9\xde\x8a\xb2\xde\xe3\x9e\x02\x00\x1e\x22\x5b\x15\x5f\xa7\x7f\x3b\x06\x17\x36\x54\x1c\x33\x64\x72\xb8\x9a\x98\x01\xaa\xf4\x9e\xbb\xc7\x7d\x3b\xc6\xda\x24\x3f\xdb\x57\x62\x06\x50\x3e\xc2\x4c\x82\x61\x3b\xa9\xb5\x7f\x76\x74\xa7\xb5\x80\x8e\xb3\x7d\x7a\x6a\x27\x7a\xbf\x2e\x73\xac\xc9\x25\xab\xe3\xe6\xdd\x2d\x61\xe8\x1a\x5d\xbe\x94\x90\xe5\xd5\x6f\x78\x51\x7e\x7d\x8f\xdd\xd5\xbd\xa0\xe7\xfe\x2f\xb8\xa8\xc6\x8f\x22\x67\xda\xa5\x1c\x30\xc5\x90\x9a\x56\x97\x3e\x97\xf3\x6d\x4b\xec\x5c\xe3\xfa\xd3\x98\x63\xc7\x5a\xd0\x87\x2a\x0b\x2c\xc9\x07\xcd\x2f\x37\x91\x96\x39\x07\x2e\xf1\xd8\xf0\x1f\x03\x00\x7a\xa4\xd9\xfc\x32\x6e\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x4b\x8f\xe4\x38\x72\xf0\x59\xfa\x15\x31\xc2\x3c\xa4\xfa\xb2\x94\xb3\x1f\xf0\x7d\x58\xd7\xa0\x0c\x77\x57\xd7\x3c\x76\xa7\xbb\x6b\xbb\xab\x77\x0e\x8d\xc6\x2c\x33\xc5\xcc\xe4\x96\x52\x52\x8b\x54\x55\xe5\xa6\xf3\xe2\xcb\x1a\xb0\x01\x03\x3e\xf9\x60\x2c\x7c\xf2\xd5\xf0\xd9\xbf\x67\xc7\xd8\x7f\x61\x04\x19\xa4\xa8\x4c\x29\x1f\x3d\xb3\x3e\x18\x2e\x60\xa7\x53\x12\x19\x0c\x46\x04\x83\xf1\x22\x77\x3c\x86\xab\x32\xe3\x30\xe7\x05\xaf\x99\xe2\x19\x4c\x56\x30\x61\x75\x59\xa4\xf0\xec\x25\xbc\x78\x79\x0b\xd7\xcf\xbe\xb9\x4d\xc3\xf1\x18\x5e\xf1\xba\x29\x0a\x51\xcc\x4d\x03\x78\x10\x79\x0e\xe5\x3d\xaf\x1f\x6a\xa1\x38\xa8\x85\x90\x30\x13\x39\xd7\x8d\x7f\xcd\x6b\x29\xca\xe2\x02\xd6\xeb\x94\x7e\x6f\x36\xde\x07\x78\xc6\x14\xf7\xbf\xe2\xf3\x66\x13\x86\x15\x9b\xde\xb1\x39\xc7\x2f\x37\xe6\xe7\x0b\xb6\xd4\x5f\xc6\x63\xb8\xb5\x63\xc0\xb4\x2c\x14\x13\x85\x84\x25\x57\x8b\x32\x93\xa0\x4a\x58\xb2\x3b\x0e\xa2\xc8\xc4\xbd\xc8\x1a\x96\x03\x2f\xb2\xaa\x14\x85\x92\x30\xab\xcb\x25\x48\x5e\xdf\x8b\x29\x97\x23\x44\xa3\xe6\xef\x1b\x2e\x15\xb0\x22\x83\x9a\xcb\xaa\x2c\x24\x07\xb5\xaa\xb8\x86\x84\x4d\x71\x46\xa5\xe4\x2d\x94\x11\x30\x09\x0f\x3c\xcf\xf1\x5f\x5e\x4c\xcb\x8c\xd7\x12\x01\x20\xbc\x8c\xd3\xf3\xac\xac\xa9\xa3\x86\x36\xd2\x2f\x18\x52\x6a\x06\x65\x53\x83\x6c\xaa\xaa\xac\x91\xd2\xaa\x66\x85\xc4\xdf\x88\x99\x60\xb9\xf8\x1d\x53\xa2\x2c\x10\xda\xac\xac\x97\x4c\xc9\x34\x0c\xc5\x52\xb7\x88\xc3\x20\x9a\xac\x14\x97\x51\x18\x44\x38\x77\xfe\xa8\xf0\xa7\x46\x43\x14\xf3\xf1\x6f\x65\x59\xe0\x8b\xd9\x52\xbf\x17\xa5\xf9\xef\x58\x94\x8d\x12\x39\x3e\x14\x5c\x8d\x17\x4a\x55\xf6\x77\x53\xeb\xd7\x52\xd5\xd3\xb2\xb8\xa7\x9f\xa2\x98\xcb\x28\x0c\x83\x68\x2e\xd4\xa2\x99\xa4\xd3\x72\x39\x9e\x97\xe7\x77\x42\x8d\xf1\x7f\x96\x16\x51\x18\xb0\x62\x55\x4d\x20\x9a\x97\xe5\x3c\xe7\xe9\xbc\xcc\x59\x31\x4f\xcb\x7a\x3e\xae\xea\x52\x95\x93\x66\x36\xd6\xf3\x1f\xdf\x15\xe5\x43\x31\xd6\xad\xa3\x30\xc8\x9a\x5a\x4f\xf2\x84\xae\x6d\x97\x28\x0c\xf8\xb2\x52\xa7\x8c\x4b\xed\xa3\x30\x98\x09\x9e\x67\x4b\x26\xef\x4e\xe8\xed\xf5\x89\xc2\x40\xaa\xba\x99\xaa\x13\xba\xdb\x0e\x51\x18\x28\xb1\xe4\x52\xb1\x65\x75\x42\x77\xaf\x4f\x14\x06\x0f\x35\xab\x2a\x5e\xcb\x13\x00\xb4\x5d\x76\x59\x5a\x8b\x3c\x67\xe3\x65\xf3\x18\x75\xbf\x54\x77\xf3\x31\xaf\xeb\xb2\xd6\x92\xb6\x67\x20\x27\x79\xfa\x8d\x15\xbf\x3d\x1d\xf4\x0f\x44\x64\xbd\x3e\x07\x31\x03\xfe\x1e\xd2\xab\xb2\x98\x89\x79\x7a\xeb\x56\x42\xc4\xf2\x3c\x82\xa8\x60\x4a\x46\xb0\xd9\x74\x71\xc3\xb7\xe7\xa2\xd4\xff\xa6\x73\x94\x70\x04\xc5\x8b\x6c\xb3\x39\x0a\xea\xbc\xae\xa6\x16\xea\x0e\x9e\xfa\xe3\xe0\x97\xf1\x92\x2b\x96\x31\xc5\xb6\x07\x3d\x7a\x48\x84\xdf\xae\xf8\x81\xf5\xe5\x1a\x58\x74\xbc\xb1\x70\xed\x9e\x00\x00\x9b\x47\x47\x91\xa5\x25\x36\xfe\x3a\x61\x08\x6c\xde\xc1\x31\x09\xc3\xf0\x9e\xd5\x10\x87\xc1\xf7\x70\x09\xb3\xa5\x4a\x5f\x57\xb5\x28\x94\x79\xd6\x0a\x2c\xbd\x2a\x97\x15\xab\xb9\x79\x45\xda\x27\x7d\xa2\x4a\x61\xde\x74\xa6\x99\xbe\xe0\x0f\xaf\x79\x7d\xcf\x6b\xf3\xd1\x68\xb3\xf4\x45\x59\x5d\xe5\xa5\x6c\xdf\xa6\x57\x65\xb5\x32\x0f\x46\x78\xd3\xef\x6a\x56\x85\xc1\x78\x0c\xc4\x4f\x2b\x86\x46\xc7\x63\x53\xad\x92\xd2\x27\x85\xee\xd7\x2a\x99\xf4\x19\xfd\xc4\xd7\xa4\x3e\xd2\x6b\xfc\x17\x5f\xd8\x25\x9d\xbe\xd6\x3f\xf0\x95\xb7\x4c\xd3\x5b\xfb\x1b\x3f\xb4\xcb\x0f\x5b\x8b\x62\xfe\x6b\x96\x37\x7a\xde\x9e\x5e\x49\xbf\xc4\xdf\xcf\x99\xbc\x0b\x93\x30\x1c\x9f\x1d\xf5\x07\xd7\x76\x4f\x02\xfb\xea\xf0\xdf\x58\xef\xa0\xdf\x14\xc0\x70\xbf\xb9\xe7\xf5\x08\x84\xfa\x4c\x42\x23\xf9\xac\xc9\xf5\x36\x35\x6b\x8a\x29\x52\x41\x82\x5a\x30\x05\x05\xc7\x5d\xaa\x84\xb2\xd2\xb6\x01\x94\xd8\xb7\xe2\xf5\xb9\xdd\x06\x10\xe0\x84\x49\x21\x53\xf8\xb2\xac\x81\x3f\xb2\x65\x95\xf3\x11\xac\xca\x06\x96\x62\xbe\x50\x50\x31\x89\x5b\xa4\x87\xb0\x2a\x81\xb9\x81\xcc\x38\x55\x5d\x66\xcd\x94\x4b\x04\xc7\x0a\x2d\x01\xe9\xd7\xac\xc8\x72\xc4\xf1\x41\xa8\x05\x70\x36\x5d\xd0\x4e\x0f\xb1\x1d\x3d\x81\x07\x51\xf3\x0c\x9a\x0a\x91\x64\x20\x2b\x3e\x15\x33\x31\x85\x8a\xa9\x45\x0a\xf1\x37\x0a\x01\x0a\x09\x55\x5d\x4e\xd8\x24\x5f\x01\x83\xa5\x90\xca\x58\x09\x90\x71\x29\xe6\x05\x76\x15\xc5\x7d\x79\x87\xdb\x3d\x07\x14\x36\x31\xe5\xce\xaa\xd0\x28\x72\x84\xd3\xce\xc0\xc8\x00\x88\x96\x92\x69\x12\x8e\xc7\x8e\xba\xd3\x5c\xf0\x42\x75\xa9\xab\x4a\x98\x96\x79\xce\xa7\xca\x33\x50\xf2\x15\x4c\xcb\xc2\x80\xe3\x99\x67\xae\x88\x02\x27\x84\x00\xa5\x28\xe6\xb9\x31\x4c\x0c\xad\x04\x52\x78\xc9\x11\x0f\x1f\x5f\x51\x28\x5e\xcf\xd8\x94\x0f\x71\x02\x81\xb9\xc1\xfa\x8d\xa4\x06\x07\x6b\xad\x12\x6d\x2c\xe0\x02\xbc\xa2\xf9\x4c\xcb\xe5\x44\x14\x9a\x4e\x4b\x42\xd1\x63\xec\x88\x4c\x29\xd5\xd4\x05\x08\x85\x74\x45\x04\xa7\x2c\xcf\x79\x8d\x16\x13\xb3\xc8\xa6\xa1\x9e\xce\x0e\x41\xd7\x61\xf0\xa6\x70\xf3\xe3\xd9\x7a\x9d\xda\x1e\xc6\x04\x24\x4d\xb0\x5e\xd7\xac\x98\x73\xf8\x58\xc0\xc5\x25\xb8\x36\xcf\x0d\xcb\x50\x8f\xad\xd7\x1f\x0b\xea\x63\x47\x01\x00\x37\xd5\xd4\xbe\x0c\xd7\x6b\xa3\x5c\x8d\x75\x69\x5f\xcb\xc3\x43\xa0\x00\x43\xec\x4d\x22\x01\x6f\xd0\x78\xaa\x1e\x81\xac\x34\xdc\x1a\xf0\xdf\x11\x0a\xcc\xd9\x7a\xfd\x55\x89\x88\xc1\xc7\x22\x7d\x65\x4c\xd0\xdb\x55\x65\x27\x98\x40\xbc\xd5\xc2\x18\xa6\x5e\x93\x91\x51\x70\x09\xac\xc3\xc0\xda\xad\xfa\x1d\x22\xca\xd3\x9e\x99\x23\x32\x38\x78\x12\x06\xb8\x59\xd5\x35\x7c\x74\x09\x85\xc8\x11\x42\x40\xfc\x2a\x44\xae\x81\x84\xc1\x26\xb4\xef\x2c\xf4\xf4\x20\x4e\xc9\x08\xe1\x85\x1b\x47\x4e\x24\xe6\x73\x76\xe7\x91\x27\x5c\xaf\xf5\x42\xfe\x58\x71\x44\x34\xdd\x60\xe3\x73\xf0\xa9\xfc\xb1\xe2\x43\x84\x46\x58\x7d\x33\x93\x48\x74\xc5\x7b\xc5\x24\xd9\x65\x37\xac\xdd\xe4\x90\x7f\xfd\x5c\xb2\x8e\x81\x5b\x51\xeb\x4d\x02\xb1\x25\x86\xff\x5a\x53\xcc\x63\x47\x50\xf3\xf7\x38\x11\x82\x90\xc6\x87\xb8\x1d\x06\xc1\xbd\xe3\x9d\xf4\x79\x87\xa8\x69\x54\x92\x30\xe8\xe1\xda\x2e\xdb\x90\x6f\xf6\xed\xbd\x61\x47\x80\x62\xdd\xee\xcd\x3e\x6f\x70\x73\x7c\x92\xe7\xd7\x8f\x53\x5e\x29\xbd\x4f\x49\xa3\x62\x1d\xa5\xf4\x0e\x85\x2e\x0b\xad\x4d\xfb\x41\x82\x66\x23\x43\x28\x9e\x4d\xe0\x48\xfd\x5c\x64\x59\xce\x1f\x58\x6d\xbc\xc0\x37\xd2\xfa\x85\xe8\x04\x55\x55\xbe\x42\x15\x83\x6a\x53\x21\xf0\xa5\x6b\xad\xbd\x2e\x7e\xcf\xeb\x95\x63\x1b\xae\x17\xd4\x20\xe4\xb6\x69\x78\x2f\x2b\xdc\x35\x58\x9e\xaf\x46\xae\x9d\x84\x29\x2b\x60\xc2\xf5\x5e\xc3\x33\xec\x36\x59\x41\x81\x64\x57\x25\xbe\xe7\x8f\xd3\xbc\xc9\x78\x66\xbc\xc0\x09\x47\x14\x70\xce\x15\xcf\xd2\x1d\x6a\xc4\x2d\x4e\x23\x88\x5e\x2b\xa6\x1a\x19\x8d\x20\xba\x11\xc5\x3c\x4a\xdc\xba\x3f\x73\x04\x49\x06\xfb\x3b\x0c\x3d\xaa\x8c\x5a\x6c\xd2\x34\x95\xda\x2c\xd0\xc2\x23\x0a\x7a\x7d\x71\x09\x4b\x56\xbd\x35\x9f\xde\x19\xf2\xaf\x37\x28\x5e\xdb\x0b\xa6\x67\xb5\x04\x41\x10\x79\x62\x14\x5d\xc0\x7a\x33\x0a\x03\xdf\x8c\xdc\x84\x61\x80\x7b\xfd\xf7\x88\x0a\x82\x31\x20\x1d\x5a\x38\x92\x98\xc1\xf7\x23\x28\xef\xf0\xb3\x45\xec\x2d\x7f\x7c\xf7\x05\x7c\x54\xde\x21\xb6\x41\x50\xb1\x42\x4c\xe3\xd6\xc2\x9b\xc5\xd1\xb5\x05\x61\xe7\x0d\x9f\x7d\x22\x3f\x83\xac\xe4\x12\x8a\x52\x01\x7f\x14\x52\x7d\x01\x92\x73\x9f\xf1\xce\xa7\xd4\x26\x3d\x22\x95\x24\x24\xcf\x19\xcf\xb9\xe2\xb1\xc5\x40\x7f\x6b\x27\x20\x8a\x69\x8b\xbe\x6d\x03\xc7\x13\x4a\xcc\x34\x88\xcb\x4b\xe8\x90\x4c\x43\x08\x82\x5e\x55\x0a\x97\x1e\xe6\x71\x6f\x13\xc4\x3d\xd8\x6c\x93\xdc\x2c\xbb\x6f\xd9\x84\xe7\x3c\x6b\xa5\xc1\x84\x50\xe6\x5c\x59\xd9\x45\x79\x77\xd4\xd3\x22\xfc\xb0\xe0\x85\xfb\x5a\x7a\xe2\x4a\xc0\x8c\xd4\x8d\xcc\x2a\xa3\x85\xd0\x98\xc6\x60\xe2\x32\xcc\x04\x77\xc4\x14\x8d\x9a\x5a\x4c\xb5\x99\xd5\x4e\x03\x1e\x16\x62\xba\xd0\x6b\x48\xf2\xa2\x0f\x05\xda\xc9\xa9\xb7\xb5\x63\xca\x9a\xf6\xf1\xdd\x59\xe1\x22\x89\x8d\x00\x8f\x76\xb5\x70\x8f\x62\x0e\x87\xe6\xf5\xc1\xba\x69\x07\xa9\x11\xcd\x53\x53\xbc\xe6\x53\x2e\xee\x51\x35\x71\x33\xc5\x72\xd6\x99\x77\x0a\xaf\x39\x77\x60\x3c\x28\xfa\x83\x35\x44\x09\xe1\xeb\x47\x44\x14\x25\x32\xe3\x8a\x89\x5c\xa2\x9d\x6c\x97\x13\x02\xb1\xc6\x2e\xcb\x85\x5a\xa5\xfb\x54\x48\x67\xee\xf1\xf2\x47\x50\xf4\x7f\xf5\xcc\xff\x1c\x3d\xd3\xe9\x36\x82\x93\xd4\xce\xf1\x01\x8a\x63\x5d\xcf\xaf\x5e\xdd\x5c\xe1\x3c\x79\x7d\xb2\xef\x89\x66\x9c\xd7\x1d\xc3\xb5\xb2\x35\x06\x1c\x7f\x80\xdd\x33\x91\xb3\x49\xce\x8d\xdb\x30\x7f\x75\x73\x05\x03\xce\x00\x2d\xa7\x2e\x64\xe7\x21\xca\x56\x37\x8c\xa0\xd4\xb6\x83\xc4\xf5\xd0\x89\xc5\x68\xf1\xe6\xb5\x31\x2d\x92\xa1\x81\x90\x5d\xd2\x6b\x28\x51\x26\xde\xbe\x1b\x86\x84\xd2\xdb\xf7\xf5\x29\x9f\x95\x35\x8f\x11\xdb\xe7\x14\x53\xba\x2d\xc9\xfa\x4c\x46\xc8\xb5\xad\x71\x2e\xd1\x70\xe2\x45\x16\x77\x5e\xbb\xf9\xa4\x69\x9a\xe8\x40\xc7\x7a\x0d\xb7\xe5\xb7\xe5\x03\xaf\x5b\x41\x44\x52\x21\x73\xad\x69\xf8\x29\x62\x84\x1f\x79\xbd\x46\x37\xe9\xa0\xf4\x2e\x8c\x1b\xee\x49\xdc\x05\x74\x67\xe5\x22\x34\x31\xca\xb3\xa3\x7c\x9f\x90\xa2\x25\x12\x3c\xd3\x81\x72\x9c\xbe\xd7\x82\x8c\x63\xdd\xe0\xba\xe8\x6d\x40\xae\x0e\xb6\xe8\x10\x22\x4d\x53\xec\x86\xa4\xdb\x92\x7d\xd4\xbd\xed\x7c\xb7\x3d\x67\x67\x9b\xf7\xb3\xdb\xd9\xf9\x66\x93\xf3\xe0\xfc\xe4\xde\xea\x2e\x8d\x01\xb6\x88\x4c\xd1\x10\xcf\x9c\x27\x27\x8b\xc2\x14\xa8\x68\x3d\x14\x55\xd9\xce\xf6\xf8\x89\x1e\xc4\x54\x2f\xb5\x58\xc2\x59\x3b\x54\xd2\x82\x3f\xe0\xfd\xa2\x73\xf4\xd3\xba\xbf\xdf\xa3\x87\x54\x79\x0e\xd4\x2e\x21\xf5\x24\xb4\x2c\xf9\x1e\xd5\x89\x6e\x70\xf5\x81\x1e\x30\x11\xd8\x08\xfc\x61\xea\x8e\xc7\xb0\x6f\x6d\x80\x40\x5d\xe8\x44\x42\x07\x88\x53\xd3\x81\x5a\x7c\x89\xec\xd1\x41\x22\x4c\xe8\xf0\x5a\x49\x13\x43\x22\xfd\x69\x95\x83\x03\xec\x5c\x5d\x8c\xe4\x60\xa0\xaa\x3e\xcf\xca\x25\x13\xc5\xbe\xc6\x29\xdc\xd4\x62\xc9\x6a\x91\xaf\x6c\x6c\xcb\x0f\x84\x19\x75\xbc\x6f\x1e\xf1\xf7\xbb\xb2\x81\x73\x79\xc5\xdf\xb7\xb2\xa8\x7d\x6e\xef\xa9\x1b\xf5\xd0\x5e\x36\xf5\x39\xc6\xcb\x76\x9c\x7c\xbf\x87\x4d\xd7\xc5\xd1\x6c\xda\xab\xa1\x7a\xf9\x64\x7a\xd8\x26\x43\x8c\x3a\xcc\x02\x1a\x42\x33\x6c\x0f\x5b\xab\x7c\x75\x14\x9f\xf6\x4e\xa4\x8f\x51\x7d\x61\x90\x7d\x9c\x92\x15\xb2\xca\xf6\x3a\x62\x1d\x79\xcc\x92\x55\x1f\xb7\xbe\xe6\x39\xc6\xd4\x43\x23\x68\xbd\xbb\x68\xbf\xfe\x59\x66\x60\x73\x38\xe9\xf3\x67\xc9\x76\x03\xc4\x17\xb5\xe8\xdd\x08\xee\x5b\x73\x6f\xe9\xec\xd4\xfb\x4e\xfc\x45\xa7\xa2\x39\xdc\xf1\x95\x66\x77\x86\x06\xed\xa4\x54\x0b\xa4\xb1\x1d\x85\x92\xb8\x10\xdf\x25\xe4\x7b\x60\xd3\x3c\x87\x1c\xf9\x45\x50\x18\x79\x5c\x3a\xd6\x7a\xc5\x8a\xb2\x10\x53\x96\x7f\xcd\x59\xc6\xeb\x5f\xf2\x95\x75\x4c\x70\x20\x59\x52\x04\x58\x91\x9f\x67\x41\x4c\xa7\xdc\x06\x3e\xb8\x50\x0b\x5e\xd3\xc8\xf8\x1d\x49\x71\xe9\xe6\xfa\x9d\x50\x0b\x9d\x84\x40\x12\x8d\xf4\x5c\xdf\x7e\xfe\x2e\x39\xd8\x70\x00\xbb\xf8\x2e\x69\x21\x90\xc9\x4f\xec\x9b\xaa\x47\xbd\x03\x5b\x03\x70\xff\x9f\xe6\xa3\x09\x33\x9f\x6c\x54\xbe\xe0\x0f\x5e\x6f\x33\xbc\x4e\x39\x50\xdc\x08\x26\x6c\x7a\x87\xec\x59\xd9\x35\x63\xe2\xf3\x38\xd7\x82\xeb\x74\x47\x0a\xdf\x28\xe4\x23\x45\xfa\x49\x5c\xc5\x44\xa0\xc3\x66\x59\x40\x81\x6c\x55\x42\x26\x58\x6e\xa2\xdd\x39\x53\xbc\x86\x29\xa6\xa2\xd0\x03\xe7\x3e\x4c\x23\xa0\x1d\xec\x62\xfc\x6c\x76\xcf\xd4\xe0\x7b\x55\x16\xc5\x1e\xcb\xd4\x34\xb2\x96\x69\x3c\x60\x9a\xfa\x4b\x0e\x0d\x84\xed\x40\x6b\xe0\xbd\xad\xee\xe6\xb8\xd2\x6c\xbc\xb5\x5b\x61\x11\xec\xba\x34\x7e\x74\xb5\xd5\x81\xc1\x3d\xab\x9d\xf7\xe5\xa9\x8e\x5d\x3f\x34\x0c\x70\xbd\xf4\x35\xbd\xdc\xb5\x23\x89\x4a\x5a\x1c\x91\x30\xe4\x66\x96\x75\x07\x0d\xe4\xb6\x9e\x43\x6c\x1c\x42\x88\x3e\x91\xe9\x27\x32\x6a\x27\xe7\xb7\xc6\x96\x09\xfa\x4d\x1e\x30\xd1\xc2\x70\xf8\x44\xfb\x6c\xcf\xd6\x38\x7d\xc6\x0f\x19\xa7\x07\x34\x9c\x89\xc7\x05\xad\xf1\x8e\x8f\x89\xa3\x57\xac\x1d\x4f\xcd\x08\xb2\x64\xdb\x5f\xf6\x87\x5b\x64\xb6\x93\x3c\x68\xcb\xc3\x39\x81\x72\x38\xdb\xbe\x17\x7e\x62\xc4\xfb\x3e\x6a\xc7\x0b\x36\x56\x11\xa3\x02\xc6\xb9\x03\xad\xb6\x1f\x6f\xda\xec\xd9\x33\x9f\xf1\x63\xf6\xcc\xfd\xbb\xe0\xb1\xa6\x0d\xed\x4f\x03\x7b\xa6\x51\x18\xb4\xa2\x9f\xf1\x13\xf7\x4c\x9c\xcc\x2b\x8d\xcc\x91\x9b\x26\x36\x75\x06\x0e\x6e\xe5\x27\x6d\x9b\x55\xbe\xea\xdb\x37\x7d\xb6\xfd\x78\x53\x67\xd8\x22\xbd\x2e\x8e\xb0\x48\x0f\x33\xc4\x33\x4c\xf7\x70\x78\xaf\x45\xda\xe1\xda\xbe\x79\xf4\x1b\x3a\x34\xc5\xe3\x58\x76\x6a\xde\x67\xbf\x45\x4a\x58\xe8\x9d\x5a\xde\x96\xbe\x91\x63\x56\x4a\xdf\x2e\x41\xe3\xe0\x3a\x31\x82\xba\x07\x4a\x7c\xc7\x57\x12\xde\xbe\xb3\x71\xc1\x03\xf0\x8e\xca\x9b\x2d\x33\x38\x3b\x64\x60\xe9\x7d\xa3\x62\xa2\x6e\x07\x0f\x03\x1b\x25\xbc\x6b\xcd\x2e\x8d\xde\x9a\x82\x67\xf7\x36\x42\x38\x55\x8f\xa9\xa6\x49\x7c\x97\xa4\x14\x0d\x4d\xbe\x00\x1b\x29\x0c\x0c\x60\x17\x2e\xd1\x8f\xc6\xc8\x71\xd1\x31\x54\x9e\x08\x53\x7f\xeb\x58\x74\x67\xcb\x0c\xa3\x6e\x76\x02\xbf\x28\x45\x11\x9f\x2d\xb3\x51\xfb\xea\x06\xfb\xc4\xba\x27\xc6\x5c\x12\x0b\x8e\x28\x83\x16\x0f\x85\xdc\x0c\x27\x8f\x0d\xa8\x7d\x7d\x7b\x7b\x43\x3e\x88\x7d\x77\xf8\x6f\x1c\x86\x3a\x9b\x6f\xa8\x5c\x68\xf1\x82\x4b\x88\x58\x55\xe5\x62\xaa\xeb\x57\x74\x49\xe0\x17\x30\x5d\xb0\x5a\x72\x75\xd9\xa8\xd9\xf9\xcf\x23\x17\x87\xc3\x51\x29\xaa\x40\x49\x7b\x14\x2c\xf2\xa0\x8d\xa2\x3d\x1c\x9f\x43\x60\x65\x01\x55\xcd\x33\x3e\x13\x05\xcf\x74\xe9\x85\xa4\x35\xb7\x35\xcc\xc1\xa8\x5c\xb7\xf2\xa7\x1b\x95\xf3\x6b\x42\xac\x9d\x23\x66\x90\x6a\xf8\xda\x25\xf0\xf4\xd6\x56\x84\x08\x65\xe7\xed\xbb\x61\xe8\x9a\xff\x7d\x9f\x29\x54\x67\xc6\x40\x9b\x57\x76\x22\x75\xfd\x9d\xae\x51\x93\x1b\x75\x53\xc7\xdc\x7b\x18\xee\xf2\x64\xa6\x78\x1d\x6f\x7f\x51\x57\x2d\x6b\x63\x8f\xcd\x89\x06\xb4\x3b\xcb\xa3\xe2\x84\x14\x40\xd2\x31\xc1\x25\x12\x66\xd9\x3c\xa2\xe9\xf5\xaa\x6c\x10\x87\x24\xf4\x2c\x09\x4a\x73\x5c\x5c\x0e\x92\xd9\x35\x9d\x60\x41\x49\x31\x47\x80\xd4\x2d\x7d\x6a\x5e\x51\x10\x7c\x69\xfb\xe9\x68\x36\x35\xc7\xd2\xdf\x09\xfc\x35\xdc\x96\x6f\xb0\xb4\x71\xb3\x89\x92\xf4\x86\xa9\x45\xa7\x0d\xbe\xb8\xe5\xcb\x0a\x6d\x6d\xdd\xc2\x8a\xd3\x40\xa1\x98\x0e\x43\x76\xe3\x90\x84\x51\x4f\x30\x92\xec\x39\x9c\x9e\x37\xa4\x4e\xc3\xb8\xed\xc1\x34\x34\x1c\xc5\x86\x5f\x99\x6c\x9a\xdd\x86\xcd\xe7\xbe\x90\x64\xa0\x13\x0c\x6d\xc8\xce\xff\x49\x4a\x63\x49\x46\x95\x2f\x34\x26\x6d\xa7\xbd\x11\x63\x16\xd8\x04\x9c\x1d\xf1\x3b\xfc\x5e\x8f\xd0\xa3\xc9\xf8\x8c\x35\xb9\xc2\xdd\xce\x08\x08\xae\x48\x1d\xb0\x2c\x67\xb0\xad\x0b\x46\xc0\x60\x52\x66\xda\xa9\x44\xdd\x60\x5c\x02\x74\x2d\x23\x3d\x4e\xe4\xbc\xd1\x7b\xd4\xb2\x08\x4a\xbf\x4f\x35\x76\x71\x62\x7c\x1e\x06\x52\x27\xc5\x01\xe9\x81\xa0\xfe\xdf\xe7\x9f\xa7\xf0\x0d\x25\xd0\xb0\xa5\x1f\x69\x35\xeb\x86\xd7\xba\xe6\x1a\x5b\x54\x75\x79\x2f\xd0\x5d\x5e\xe8\x2f\x58\x4f\x90\xe7\x98\xa5\xd7\xd8\x9a\xbc\x25\xb6\x6b\x6d\x32\x1f\x34\x42\xf1\xa0\xe3\x2c\xd2\xe7\xac\x96\x0b\xa6\x6b\xc5\x2c\xfe\x4b\xf3\x0a\x13\xfd\xb2\x99\x4e\x39\xcf\xa4\xf1\xcf\x7e\xf1\xfa\xe5\x0b\x2a\xdd\xce\x6c\x9d\xb5\x75\xf0\xf4\x5c\x1d\x3a\x98\x43\x1d\x9e\x96\xa9\x0b\xc0\xca\xf9\x7a\x64\xdd\x46\x37\xb3\xf6\x63\x07\x1a\x88\x42\x2a\xce\x32\x4b\x33\xa3\x24\x7d\x0d\xd1\x67\x88\xb8\x12\x93\x11\x3c\x98\xca\xb8\xae\x18\x68\x9b\x11\xb9\x3a\x82\xef\x71\xf9\xf9\x24\x31\xea\x07\xd3\x94\x15\xaf\xd7\x9a\x8b\x17\x38\x17\xcb\x50\xb4\x44\xc4\xcc\x52\x0b\x09\x68\x36\x5a\x6c\x12\x77\x69\xdb\xee\xb3\x62\x06\xf8\xe9\xa9\x1e\x92\xba\x5e\x9b\x08\xac\x03\x64\xfb\x21\xb9\xe3\xe4\x0b\x3b\x02\x36\xbb\xf4\xf6\x5c\x44\x1b\x2e\x1d\x38\x1b\x44\x08\x1e\x52\x23\x36\x71\x92\xbe\xe6\x2a\x8e\x48\x11\x9e\xdf\xae\x2a\x1e\x8d\xfc\x2d\xcf\x4c\x60\x61\x85\xcc\xc7\xbf\xab\x1e\xac\x1c\xb6\xf3\x40\xab\xc3\x33\x39\x2c\x0c\x6a\x29\x63\x4d\xd8\x60\x1b\x97\xbb\x51\x4f\xcb\xf4\x2b\xae\xe2\x3b\x9b\x4e\xdc\x84\x81\x5e\x1a\x17\xa6\x96\x35\x35\xe2\xf0\x0d\x9a\x8e\x05\xcb\xbd\x4d\x42\xe3\x2e\xa7\x7b\xb0\xf6\xc4\xac\x45\x5c\x03\xbf\x04\x39\x25\xc8\xf8\x99\xdc\xc6\x87\x54\x0b\x05\x61\x8c\x0d\x13\xf7\x32\x46\x6a\x27\xa8\x6f\x5a\xb9\x33\xda\xaf\x8e\x27\xcd\x0c\xde\xbe\xc3\xf2\xdc\x84\x64\x7d\x1d\x6a\x5b\xed\x01\x7c\x11\x72\x91\x73\x2b\x67\x6f\x0a\xe2\x2c\x42\x18\xc1\xa7\x0f\xc9\x17\xdb\x91\x75\x63\xa5\x48\xf1\x3b\x0e\x97\xf0\xf3\x9f\xfd\xc5\xff\x37\x22\x94\xf3\x02\xfb\x24\xf0\x97\xe6\x1b\x36\x0d\x10\x8d\x4b\x98\x34\xb3\xb7\x17\xf8\xf2\x1d\x6d\x73\xa4\x2b\xb1\xd6\x44\xd3\x6d\x16\x47\x56\x3b\x00\x4e\x4a\xa7\x7f\x2f\x30\x28\x86\xd9\xdf\x0a\xcd\x1d\x28\xca\xe2\x1c\xe5\xca\x19\xf2\xd8\x30\x1a\x21\x70\x4a\xed\x12\x54\x2a\x17\x7e\xc1\x1f\xe2\x07\xb3\x2e\x34\x8d\xb4\x0e\xf5\xe7\x6e\x8b\x0d\xd6\x61\xa0\x5b\xe1\x33\xea\x97\xdf\xe0\x28\x17\xa4\x40\x7f\x43\xea\x1c\xf9\x4e\xad\x98\x12\x72\x26\xf0\x54\xc9\x82\x3b\x6d\xa8\x15\xa9\xc7\xdc\xd6\xcd\x90\x20\xf4\x01\x10\x7b\x0a\xe6\x98\x2a\xef\xd4\xa4\xa8\xbc\x41\x1d\xaa\x1a\x2d\x3c\xb9\x60\x87\xc2\x91\xc2\xc0\xea\x5e\x00\xbf\x06\xc0\x99\xe4\x56\x46\xe2\x45\x0b\x34\xf1\x74\x5e\x9c\x40\xb7\x9a\x6e\x91\xb6\x23\x0c\xf4\x6e\x97\x15\xbe\xa4\xb5\xd3\x01\x41\x48\x85\x9d\xa8\xfc\x76\x84\xe1\xa0\x4d\xe2\x05\xb0\x0e\x18\x25\x2e\x28\xb1\x77\xf7\xdf\x76\x72\x35\xf6\xfd\x69\x17\x9d\x85\x35\xe7\x80\xb0\x0f\x2a\xbf\x73\xda\x6b\x7c\xff\xd5\x8e\x73\xc3\x6a\x5e\x28\xf2\x09\x9d\x9c\xea\x1a\x35\xdc\x8e\x10\x2b\xfb\x56\x43\x46\x09\x3e\x14\xd5\x0f\xbc\x10\xc5\xde\x69\xf5\xfa\xbc\x70\x46\x1b\x8c\x6e\x32\xec\xef\x06\x19\x9f\xf1\x1a\xea\x14\xb5\x76\x7a\x85\xe1\x4f\x54\x40\x5a\x63\xa0\x2f\xdc\xba\xbf\x5b\x73\x25\xc8\xa8\xb9\xd1\x08\xc2\x05\xef\xd2\x77\x54\xda\xff\x8a\xb3\xec\x49\x9e\xc7\x06\xf8\x71\xe5\x8f\xb6\xde\x7f\x86\x1b\xde\x08\x22\xd2\x04\x35\x6e\xb6\xd6\xe0\xc1\x99\x59\x72\x46\xa4\xa9\xb7\x14\xd1\xe7\x7a\x6e\x41\x63\x95\x1a\x3a\x42\x17\x97\xe0\xce\xb7\xb4\xea\x8e\xec\x3c\xdd\x3c\x78\x92\xe7\xe5\xc3\x0d\xab\x95\x60\x39\x46\xd3\x54\xdd\x90\x51\xf8\x4c\xc8\x29\xab\xb3\x37\x85\x3e\x8b\x74\xd1\x7e\xb1\x75\x21\x38\xf5\x4b\xf0\x07\xdc\x51\xa9\x98\xb1\xdc\x51\xaa\xfd\x6a\x75\x58\xb1\xf6\xaa\x56\x42\xa3\x43\x4c\xb7\x60\xd7\x3d\x64\x25\xea\x7d\x90\xce\x35\x04\x09\xbc\x0d\xf1\x29\xcb\x48\x1c\xe8\x1b\x22\xd0\xa2\xe5\xbc\x75\xf4\x28\x6f\x58\xcd\x96\xd2\xba\x2b\xbf\x66\xb5\x8c\x6b\xe4\x21\x9e\xf7\x68\xbf\xa3\x6f\xff\xbe\xe1\xf5\xaa\x6d\x5e\xa7\x6f\x5e\x7d\x9b\xfe\x0a\x5f\xc6\xb6\x83\xd7\x24\xf4\x7d\x18\x53\xf2\x7a\x71\xd9\x4a\xad\x3e\x9a\x41\x0e\x8c\x2e\xa4\x29\x6c\xb3\xf4\xdb\xd2\x18\xd6\x10\xe9\x49\x9a\x36\x18\x5f\xd5\x50\xd2\xaf\x78\xa1\x07\x75\xdc\x44\xef\xa6\x3f\xac\xbb\x1f\x85\x97\x05\x2f\x67\x3b\x78\xf0\xf7\xbb\x78\xe8\x69\xfd\x18\x44\xdc\xb2\xfa\xb4\xe6\xef\xdb\x34\x38\x39\x2d\x3a\x82\x6c\x9b\xb6\x91\xc1\x1e\x87\xa8\x57\x63\x0e\x25\x40\x8d\x7e\x94\xd6\x3b\x70\xfb\x3a\x93\x5a\x7f\x6e\x7b\x03\xc6\x37\xaa\x4f\x48\x6e\xf6\x20\xd8\xa7\xfb\x7a\x6d\xeb\xa1\x7c\xa7\x33\x91\x86\x14\xc5\xf3\x1d\x35\xb1\xad\x24\x9c\x2e\x78\x23\xf9\x0d\x2a\x18\xd4\x97\xd2\x57\x1f\x6f\x24\xbf\x2e\x9a\xe5\x8b\x66\x39\xe1\xb5\xbc\x68\x3f\x5c\x2f\x85\x7a\x53\x54\x65\xd5\xa0\x4b\x9c\x39\xb5\xb2\x09\x3b\xfa\xb4\xc5\xcd\xa2\xe3\x8a\xd8\xd3\x58\xa3\x9a\x3e\xe7\x52\xb2\x39\x4f\xf6\x95\x44\x58\x31\xf8\x7e\x44\xda\xca\x99\x93\xda\x92\xf2\x5a\xf9\xf9\x59\x57\xf3\x28\xc9\x18\xe8\x8b\xa1\xf4\xc7\x11\x77\x76\xa1\xa1\x44\x6d\x6b\xbb\x5b\x53\x5c\x2b\xbb\x7d\xa9\x59\x04\xbc\x9b\x96\x5d\x30\x09\x0b\x96\x99\xbe\x43\x89\x58\x9d\xfe\xcb\xb0\xb4\x53\x60\x54\xb8\x95\x6f\xff\x50\xb0\x5a\x70\x03\xc5\x18\x52\x32\xb5\x9b\xbe\xcb\xff\xa2\x30\x63\xb4\xd5\x85\x15\x2d\x3a\xe4\x84\xa2\x37\x2e\x4b\x03\xa4\x9b\xed\xdd\x9b\xe7\xdd\x9b\xbd\xbd\x1b\x39\x0a\x79\x9e\xca\xde\x2e\x5b\xf8\xeb\x44\xef\x2e\x0c\x54\x5e\x48\xee\xa6\xe0\xed\xe1\xab\xe9\x02\x75\x59\xaa\xbf\xb0\x5c\x96\xc0\xb2\x8c\xd6\xb0\xd6\xf6\xd0\xd4\x79\xb8\x3f\xdd\x1c\x51\xd3\x73\x3c\xa2\x3c\x22\x25\x7e\xc3\xd4\x22\x39\xd4\xd1\x71\x05\x4b\xf6\x51\xe6\x50\x89\x44\xc9\x07\xe7\xa5\x11\x04\x25\x4d\xec\xbb\x13\xf2\xd2\x5e\xef\x36\xc4\xda\x93\x96\x2e\x00\x5b\x92\xf6\x82\x5c\xdc\xa3\xd5\xca\x14\x51\x6d\x59\x2a\x1d\x5f\xc0\xf0\x01\x2b\xf0\x84\xd7\x77\x58\xae\x5f\x99\xb3\x64\xe6\x1d\xea\xc9\x69\xb9\xe4\xe6\x88\x43\x3b\x48\x26\xe4\x14\x4f\xe8\xaf\x40\xae\xa4\xe2\xcb\x11\x48\x5d\x43\x9e\x8b\x3b\x9e\xaf\xac\xd0\xa1\x18\x41\xb4\x28\xa5\xba\x40\x89\x8e\x48\x81\x76\x66\x10\xbb\xa1\x6c\x19\xf2\x60\xe4\xf6\xf4\xac\xb5\x98\xc1\x47\x56\xe4\xbe\x66\xf2\xa6\xe6\x33\xf1\xe8\x46\x1c\x41\x84\xab\x32\x32\x1e\xb9\xc3\xe3\xd2\xbc\xbe\x18\x8f\x23\xf8\x3f\x8e\x12\x28\x95\x41\xe3\xb4\x60\x53\xe7\xe9\x0d\x5a\x27\x0e\xda\xd1\xf5\x5f\x68\x5c\x34\x21\x9d\xf1\x45\xcf\xb2\xc7\xe3\xa0\xbc\xaa\x39\x0c\x11\xbd\x28\x0d\x23\xbd\xf0\xb6\x29\xcb\xd7\x04\x31\xc1\x20\x04\xf4\x50\xd6\x77\x23\x30\x21\x73\xa0\x9d\x1e\x1d\x3f\x3c\xad\x57\x1b\x7b\xd3\x7c\x15\x48\xc2\xa8\x0d\xdb\x62\x61\x59\x70\xbc\x2f\x14\xac\xd7\x20\x66\x3b\xce\x0f\x21\x8d\x5f\x75\x04\xd0\x1a\x1b\x08\x49\x14\x19\x7f\xdc\xed\xf1\xb9\xed\xa3\x6d\xfc\x5d\xaf\xc2\xce\xb8\xaf\x00\x00\x8d\x0d\xfd\xdf\x60\x4f\xbf\x9e\x73\xbf\x5e\x35\x00\x95\x9b\x0f\x86\x8d\xc9\x82\x0c\xa6\x65\xb5\x7a\xf3\xea\xdb\xb8\x19\x81\xdf\xfe\x29\x93\x1c\xd5\x07\x86\x8f\x6d\xd3\xd6\x3a\xd8\xc5\xaa\x6b\x97\x76\x63\xc4\x44\x99\x9e\xc4\xff\x4e\x56\x3f\xd8\x4e\xec\x5b\xdb\xb6\xe5\x66\xe7\x77\xfb\xd3\xa9\xab\xde\x0c\xff\x5e\xbe\xc3\xf9\x9f\x8b\xf3\x43\x81\x74\x34\x5a\xf6\x88\x04\x15\x45\xec\x9d\xaf\x57\x61\xa0\x35\x8f\xe5\xe3\x84\x49\x0e\x67\xb8\x86\xdf\xbc\xfa\x76\xa4\x93\x4b\xb4\xb5\x26\xee\x35\xae\xdf\x02\xed\x82\x8b\x4b\x38\xc3\x0e\xe6\x51\x27\x12\xc8\x3d\x70\xe4\xfc\x14\xbf\x50\x80\xe1\x4a\x3d\xda\xd4\xe8\x6b\xb4\x6f\xa7\xba\x40\xbe\xa9\x29\x54\x83\xe2\x68\x17\xae\x2a\xa1\x6a\xf2\x5c\xbf\xa7\x7d\x8e\x67\x68\x61\x48\x28\x1b\xdc\xba\xad\xf9\x4a\xdb\x92\x0e\xef\xd0\xb6\xb7\xb4\x26\xac\xef\x80\xa2\xad\x40\xe1\x8e\x14\xe0\x45\xa9\xe8\x70\x2f\x82\x44\x58\x5a\x53\x2c\xd8\x3d\x07\x7b\x69\xc7\x7e\x93\x44\x8f\x33\xd1\xd9\x2a\x3a\xdf\xa6\x8f\xf2\xa0\xe6\xb7\xa8\xe1\x51\x69\x8a\xef\x33\x5b\xec\xa4\x6d\x0f\x9c\xd5\xca\x05\xaa\x5d\x6a\xcf\x3f\x7d\xc7\x6b\xb7\xe1\x52\x6a\xb9\x4b\x3b\x93\x4e\xf6\xce\x99\x0c\xef\x07\x7e\xc4\xa7\xa7\x11\x65\xdc\xf6\x9c\xce\x3c\xc2\x3a\xfc\xc9\x12\xca\xce\xe2\xa1\xc8\xaf\x9f\x47\x76\x7b\x86\xc9\xfb\x26\x28\x55\x48\x6b\xd4\x28\x43\xe5\x31\x07\x15\xf6\x76\x48\xaa\x57\xd9\xec\x8d\x48\x6d\xfb\x57\x14\x8e\x32\xd6\xd8\x76\x48\xca\x46\x69\x68\x18\xdb\xdb\x84\x67\x5a\xdf\x67\x3b\x24\x45\xaf\xd1\xf1\x35\x66\x1e\x65\x49\xdc\x17\x34\xa8\x99\x0e\x07\xfc\xdf\xcf\x3f\xf7\xd3\x45\x23\x78\xa0\x9c\x88\x0e\x78\x56\x35\x47\x23\x87\xe9\xf5\xc0\x0a\x0d\x4b\x1b\x05\x5a\x50\x99\x52\x78\xfd\x02\xae\x1f\x33\x0b\x7f\xfd\x51\x00\x1b\x96\xc6\x85\x69\x71\xb4\x48\x1c\x0c\x99\xd9\xf2\x90\x9e\x90\x59\x2f\xd9\xf7\x47\xcc\xcc\xa0\xa7\x87\xcc\x4e\x89\x80\x5d\x62\x93\xf4\xfa\xe5\x97\x83\x41\x30\x8c\x62\xb7\xb1\x71\x14\x0c\x4d\x02\x40\x3a\xae\xfc\xa8\xd7\x96\xf9\xd3\x07\x0b\x03\x6a\x3d\xf1\x34\x07\x94\xc0\x19\x78\xb5\x97\x8b\x80\x8f\x3a\x89\x8f\x97\xbf\xdc\x3b\xc4\x2c\xde\xce\x44\x24\x23\x88\x3c\x99\xb9\x80\xcf\x3e\xc9\x3e\x8b\x46\x9d\x31\xdc\xd8\x68\x8e\xe0\x84\x0f\x49\x73\x78\x72\x5c\x6f\x30\xac\x37\x14\xd5\xdb\x84\xc7\xc7\xf4\x64\x95\x7c\x71\x98\x09\x3e\x51\xec\x84\xa9\xd1\xa7\x6d\x7d\x74\xd0\x8d\xcb\xf8\x0a\xe8\xba\x38\x51\x01\xb9\x96\x9e\x61\xb0\x63\x12\x9c\x93\xaa\x3a\xc2\x84\xda\x1b\x0b\x72\xd1\xf3\xd0\x79\xbb\x14\x0e\x02\x76\x7c\xc0\x5c\x5f\x44\x81\x2b\xff\x9e\xd5\xa2\x6c\x24\xe0\x76\x82\x56\x18\xee\xcb\xc1\x78\xbc\xbb\xf9\xc6\x68\x47\x8c\x40\x07\xcc\x4c\x4e\x1b\x17\x49\x62\x55\xc1\x11\xd3\xda\xaf\x0b\x74\x93\x81\x12\x32\x17\x3a\xc2\xdb\xa4\xee\x59\x8e\xbc\x88\x22\x8a\x4c\x9a\x57\xfb\x2f\x12\xd8\x22\x06\x8d\x66\x84\xdc\x46\x38\x6b\xfe\x3e\x0c\xb7\xb6\xaf\x41\xd7\x78\xbb\xdd\xb0\xef\x6d\xa2\x12\xaf\xb5\xce\xc6\xd3\xf6\x6a\x81\x81\x5f\xb6\xe4\x0a\xd3\x36\x78\x24\x5c\x2d\x10\x6d\xeb\xc9\xe9\x1a\x2a\x9b\x54\xda\x3a\x2f\x29\xb9\x0e\x0f\x75\x62\x9d\x38\xca\x6b\xf3\xde\x05\x3b\x6d\xc3\xcd\xf6\xf1\x52\x34\x19\xa3\xb1\xc6\xbf\xcf\xdb\x43\x5c\xf6\x27\x0f\xb6\x75\x10\xea\xb9\xb2\xc9\xb3\xe2\x33\xd5\xae\x5e\x33\xcb\x4f\xde\x47\xc6\xf8\xb4\x1a\xd4\x50\xe5\x15\x7b\x20\x23\xb3\xb1\xbf\xdd\x37\xf7\x01\x7f\x6c\x51\x4e\x0b\x5e\x97\x74\xba\xe0\xa2\x37\x62\x8d\x0a\x4e\x2d\x2b\x4a\xcf\x12\x83\xd5\xb2\xea\x92\x73\x28\x76\x0d\x96\x8e\xe7\x70\x5c\xd8\x58\xcc\xf4\x82\xa0\x66\xaf\x78\xc5\x31\xc6\x68\xbb\x7d\x23\x9f\x32\x4f\xa3\xb6\x90\xe3\x2b\x7b\x1d\x1f\xb5\xfc\xaa\xc4\x56\x10\x59\xf6\x47\x89\xed\x61\xa6\xfa\x36\x72\x21\xea\x5f\xb9\x78\x3c\x55\x62\xbf\x33\x22\x9c\xba\x16\x57\x6c\xc9\xf3\xb6\x46\x9d\xe4\x20\x97\xee\x99\x0c\x3e\xef\xe0\xc6\x50\x7f\x9b\x0f\x21\x34\xd2\x27\x59\x16\xef\x41\x65\xe4\xdd\x61\x15\xdf\x63\xcc\xab\xcd\x9b\x74\xa4\xb1\x8f\xc8\x96\x06\x44\x01\xdb\x8e\x92\x34\x43\x18\x26\x70\x79\x09\x3f\x73\x78\x8e\xc7\x78\xb8\xca\xdc\x02\x44\x29\x67\x2d\xa6\x30\xe1\x80\x37\x19\x15\x68\xc4\x6b\xc3\x8e\x3a\xa8\x25\x1d\x89\xdb\xaa\x05\x19\x1c\x8f\xfa\xf5\xac\x94\xa0\x77\xb5\xd0\x62\x99\x31\x91\x9b\x72\x1d\xbb\x56\x86\x46\x88\x88\x6c\xc1\xa6\x4b\x7b\xb4\xaa\xf7\xd2\xde\xcc\x37\x56\xcb\x6a\x2f\xe5\xd7\x6b\x9e\x63\x88\x7e\x06\x65\x0d\x31\x5a\x2a\x3b\xe2\x9a\x6c\x4b\xb4\x65\x06\xf2\x70\x7c\x86\xc7\x45\x9a\x02\xeb\x1c\xad\x3d\x59\xd6\x14\xdf\xd2\xd7\x48\x36\x4b\xdc\xc8\x10\xb2\xc4\x6d\xf5\x6c\xec\x9c\xe2\x9d\x25\xf3\x5a\xb1\xfa\xfa\xb1\xea\x22\x62\x47\x75\x8b\x40\xcc\x06\xa9\xb5\xc5\x81\x2d\x21\xfb\x40\xee\xf6\x33\xf7\x27\xe4\x2d\xa1\x47\x9b\x9a\xdd\x03\x34\xeb\xc2\x93\xd6\x9b\x81\x90\xfc\x18\xe2\x6e\xfa\x28\x67\x84\xc4\x36\x59\xaf\xc7\x67\x7f\xfc\xd7\xbf\xf9\xe1\x0f\xff\xfc\xc3\x3f\xfd\xdb\x0f\x7f\xff\xfb\x3f\xfd\xe3\xdf\xfe\xe7\xbf\xff\xc7\x1f\xff\xf0\x77\x3f\xfc\xcb\xef\xff\xf4\xfb\x7f\xd8\x61\xf0\xd6\xf8\xc7\xb1\xd1\x27\xf5\x07\xa8\x9b\xb3\x21\xd0\x3b\x8b\xc1\x9f\xd9\x07\x0c\x74\x68\x9c\x36\x78\xe3\x88\xea\xed\x2b\xee\x89\x1e\x36\x9b\xee\xd6\x54\x62\x06\x73\x28\xa7\xb9\xbb\x3f\xe9\xe6\xc3\xfb\x53\x0b\xb6\x72\xf6\x83\xe9\x42\xb6\x3b\x74\xf8\xe6\x14\x82\x59\xcc\x5d\x8d\x40\xef\xac\xfc\xd8\x8e\x9d\x5b\x29\x88\x36\xd4\xd4\x23\x8e\xae\xf2\xb7\x20\xa8\x46\x88\xac\x30\x2f\x82\x70\x60\xc5\x7e\xc5\x55\x0b\x84\x0e\x4f\x5b\xaa\x0f\x6a\xe4\x53\x97\x6d\xef\x20\x4e\x27\x5b\x29\xda\xb7\x76\x77\xa4\x8a\x80\x1d\x5a\xbe\xfd\x12\xfa\x13\xd3\xf7\x68\xd4\xb6\x24\xbe\x9f\xf6\x3b\x98\xfb\xe2\xbe\xf5\xd8\x79\xa2\x07\x1d\xa1\x6f\xed\x43\x8d\x06\x5c\x02\x21\x69\x5c\x8b\x58\x9b\xd2\x24\xf3\x85\x67\xd3\xeb\xb8\x76\x34\xe7\xca\xdc\xc6\xe9\xdb\x8c\xe8\xa1\x74\x4d\x46\x55\xbe\xe2\xea\x43\xbd\x84\x63\x4c\xc7\xf3\x03\x05\x07\xdd\xc2\x87\xf1\x19\xbc\x2c\xf2\x95\xbe\xd9\x0b\x11\xd6\xad\x25\x25\x3e\xe5\xc2\x9a\x2c\x14\x55\xc4\xbe\x98\x8b\xc2\xf3\xb0\x9a\xb2\xa5\x5a\xf8\xc5\xc0\xe5\x52\x28\xb4\x3b\xb3\x46\x5f\x3f\x84\xf1\x0b\x51\x70\x29\xe1\x6c\x4c\x23\xea\xe9\xf7\xaa\xad\x03\xd6\x63\xab\xcd\x3a\xfc\xa3\x15\xb3\x1d\x1a\x78\x7e\x38\x30\xd0\x46\x06\x06\x73\xf9\xc3\xc9\xfc\xc1\x6c\xbe\x5e\x3b\x78\x96\xc6\x39\x37\x0e\x43\x5f\x85\x7c\xb8\x8f\x63\x5c\x6d\x1d\xca\xc1\xf0\x1b\xea\x26\xf8\xe4\x3e\x1a\x81\xa6\x6c\xeb\xe9\x3c\xc5\x06\x2e\x38\xe5\x6e\x5e\x8d\xb1\x5a\x54\xe2\xd1\x81\xa7\xcd\x6c\xc6\xeb\x18\x71\xf5\x0b\xde\xc1\x2f\x29\xa1\x38\x45\xb0\x7b\x1d\xdd\xc1\x0b\x6a\xdc\xed\xb4\xc7\xe6\x6c\x5f\x3c\xb9\x7d\x4d\xd5\x83\xf6\xdd\xe1\xbf\x71\x5b\x74\x88\xfd\xc1\xc4\xb9\xdd\x33\x9d\xdc\x45\x5c\x10\xd1\x62\x04\xb2\xbe\x37\xcf\xee\xb6\x41\xf2\xec\x77\x2f\x3a\x3c\xf6\x50\x6d\x20\x9b\x89\x77\x3a\xcd\x31\x1e\xc7\xc6\x2d\xbc\xe1\xaf\x9b\x89\x9c\xd6\x62\x62\xee\x04\xda\x3a\xe5\xba\xd9\xf8\x77\xae\xa0\x97\xdf\xd7\x06\x75\x74\x7d\xef\xb7\xd4\x40\xf8\x73\x39\xd7\x93\x4c\x0e\x4a\x14\x49\x06\x06\x1a\xba\x08\x7b\x27\x46\x3d\xb6\xaf\xd7\x9d\x0b\x4b\xd8\x1d\xf7\x18\x74\xec\x15\x40\xd8\xe5\x88\x2b\x80\x5a\xc8\x07\x0f\x1b\x75\xae\x3a\x4e\x1d\x61\xe9\x08\x47\xe2\xf3\x76\xe0\xea\x9f\xfd\x10\xa8\x14\xe5\x43\x6e\x00\x0a\x86\x20\x77\x8e\x16\x61\x23\xff\xc5\x9f\xff\xee\xa0\x96\x22\x07\xcf\x1b\x93\x7e\x75\xa2\x71\x01\xdd\x39\xe1\x69\x1d\x37\xad\x93\x2e\x0e\x42\x16\x7b\x2d\x68\x67\x1b\xd1\x5d\x08\xd7\x45\x6f\x1b\x2f\x4b\xdb\xb6\xd8\xaa\x0a\x3b\xf5\x66\x21\x4f\x3e\xbc\x83\x21\xa7\xdf\x2c\xe4\xc1\x71\x25\xe6\x87\x89\xeb\x4d\x0f\x00\xce\xba\xd4\x6d\x49\xbb\x73\x61\x10\x8d\xb4\x9d\x99\x1a\x1a\xc7\xcb\x8d\x20\xc9\xd6\xeb\x2e\xd9\xfb\x73\x74\x4b\x39\x27\x55\xf9\x5c\xce\x87\x53\x22\xbb\xd5\xc2\x7d\x87\x65\xf7\x9c\x39\x58\xca\x79\xfa\x4c\xef\x90\xfd\x55\xb2\x7d\x45\x1d\x56\x96\x07\x4e\xde\x12\x79\x28\x6e\xde\x96\x39\xf6\xc8\xcb\x76\x68\x5b\x4f\xf8\x88\x32\x47\x0c\xd5\x40\x39\xf9\x2d\x96\xef\x50\xe4\x5a\x3a\x7e\xd9\xbb\x5b\x9e\xb3\x62\xa5\x83\x3a\xe7\x98\xc3\xb5\xe5\x3c\xe6\x82\xc7\x06\x63\x1d\x98\x32\x43\xf4\x50\x75\x16\x52\x60\xc2\x96\xce\x82\x91\x3a\x1c\xc4\x7b\x20\xaf\x8a\xe3\x92\xe5\x3f\x82\x62\xda\xd9\xeb\x5c\x46\xa9\x3f\x94\x6d\xe9\xdc\x91\x41\x33\x3e\x4e\xc1\x1f\x98\x06\xc2\x11\x5a\xb0\x89\xb7\xa2\xb4\x46\x43\xd2\x3e\x20\xd9\x84\xc4\xe9\x29\xff\xe4\x14\x73\xdd\xcc\xd5\x98\x4c\xa7\xc1\x01\x5d\x1f\x99\xc2\x8b\xd2\x46\x70\x10\xa0\xc9\x43\x6a\x2b\xb0\xad\xc0\xa3\xac\x79\xf4\x57\x5a\x12\x23\x3a\x3c\xd1\x8e\xdd\x9e\xf3\xf8\xd2\x44\x41\x26\x65\x99\x03\xd8\x83\x1e\xd4\xed\x37\xf6\x18\x08\xd1\xcc\x7e\xe6\x35\x9d\x02\xd1\x4c\xd8\xd6\xd1\x07\x0e\x78\xed\x61\x42\x82\x08\x4d\x9c\x49\xd0\xf1\x24\xdd\x28\x6b\x6d\x3b\xf6\x9c\xf0\xea\x5d\x18\xae\xc8\xa9\x98\xa6\x37\xcd\x24\x17\x72\x11\x13\x77\x26\x3b\x2c\xa1\x54\x94\x3b\x2a\xdc\x9e\x8a\x63\x24\x3b\x53\x56\xd7\x82\xcb\x11\x3a\xf2\x58\x22\x69\xe2\x65\x2d\xbb\x48\x2e\xb7\x21\x6a\xbb\xb1\xff\xf0\x91\xc7\x15\xbc\x34\x7f\x67\xfd\x63\xcf\x11\x7c\x4a\x87\xc0\x3e\xe2\x29\x31\xac\xbb\xf6\xfd\x65\x4f\xf6\x30\xa6\x49\xb9\x77\xd8\xe7\x14\xcb\x92\x32\x6b\xf6\xdd\x09\xd5\x80\x5e\xef\x03\xb7\xd4\xe0\xb4\xff\xbb\x6f\xa9\x69\xb1\xdb\xb5\x75\x07\xcd\x26\x12\x1b\x5e\x9f\x52\xec\x37\x7c\x45\x8d\xbf\x19\xf9\x96\xab\xb7\xef\x05\xa7\x5c\x3d\x63\x0b\xcf\xfa\x9a\x5f\xee\x5a\x24\x6e\x36\x54\x73\xe6\xee\xa0\x09\x82\x5e\x53\xda\xb7\x54\x22\x6a\xd8\xa3\x76\xfd\x5a\xb2\x67\xfc\x90\x7d\xb2\x5b\x44\xb6\x5d\x43\xd6\xa9\xd9\x77\x9b\x97\x15\xf1\xde\x8a\xb1\xde\xed\x9d\x1c\x7c\x0f\x91\x0f\xbe\x13\x06\x27\x34\x54\xf4\x32\x64\x5a\xb8\x5a\x97\x01\x6a\xf4\xee\xaf\xc7\xdd\x09\x63\x6d\x8f\x3f\xdb\xed\x2f\x03\x28\x1f\x61\x0e\xc1\xb0\x3d\xd4\xda\x39\x3b\x3a\xd2\x5a\x3a\xc7\xd9\x38\x3d\x35\x11\xbd\xb7\xc6\x1c\x6b\x5a\xc9\xea\xb8\x71\x77\x4b\x13\xba\xc6\x95\x2f\x25\x64\x61\xf5\x1b\x58\x94\x37\xdf\x63\x5f\x75\x0f\xde\xb9\xff\xff\x2c\xaa\xdd\xa3\x88\x98\x76\x1d\x07\x4c\x2e\xa4\xa6\xd5\x99\xcf\xe5\x7c\xdb\xe2\x3a\xd7\xb8\xfe\x34\x66\xd7\xb1\x96\xf2\xa1\x8a\x01\x4b\xf2\x41\x33\xcb\x0d\xa4\x65\xce\x81\x4b\x3c\x36\xfc\xd7\x00\xf4\x1c\xa4\x2a\xef\x6d\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 28210, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x3f, 0xcd, 0x9b, 0xa0, 0xb9, 0xa8, 0x7, 0xe4, 0x4c, 0xaf, 0x86, 0xe0, 0x77, 0x1f, 0xcc, 0x53, 0xc2, 0x3, 0xe5, 0x9b, 0x93, 0x66, 0x1d, 0x8, 0x48, 0x8a, 0x3d, 0xdf, 0x8d, 0xaa, 0x33, 0x11}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 28143, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xb6, 0x3d, 0xe8, 0x67, 0x5a, 0xcf, 0xa8, 0x32, 0x9d, 0xde, 0xe4, 0x3b, 0x99, 0x81, 0x6d, 0x2c, 0xc6, 0xe6, 0x98, 0xb2, 0x80, 0xa1, 0xa3, 0xd2, 0xf4, 0xb5, 0x4b, 0xb3, 0x9a, 0x53, 0x82, 0x60}}
 	return a, nil
 }
 
@@ -178,7 +178,7 @@ func serverInterruptGoTmpl() (*asset, error) {
 	return a, nil
 }
 
-var _serverServerGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\x9c\x57\x41\x6f\xdb\x38\x13\x3d\x8b\xbf\x62\x3e\xa1\x07\xe9\x83\x43\xdd\x8b\xf6\x90\x3a\xe9\x36\x40\x9b\x1a\x89\xb1\x7b\x5c\xd0\xd2\x58\x26\x4a\x93\x2a\x49\xd9\xe9\x0a\xfa\xef\x8b\x21\x25\xd9\xae\x53\x6f\x93\x4b\x2c\x91\xc3\xc7\x37\xef\xcd\x90\x4a\x51\xc0\xdc\x54\x08\x35\x6a\xb4\xc2\x63\x05\xab\x1f\xb0\x12\xd6\x68\x0e\x37\x5f\xe1\xfe\xeb\x12\x6e\x6f\xee\x96\x9c\x15\x05\x3c\xa0\x6d\xb5\x96\xba\x8e\x01\xb0\x97\x4a\x81\xd9\xa1\xdd\x5b\xe9\x11\xfc\x46\x3a\x58\x4b\x85\x21\xf8\x4f\xb4\x4e\x1a\xfd\x16\xba\x8e\x0f\xcf\x7d\x7f\x34\x01\x37\xc2\xe3\xf1\x2c\xbd\xf7\x3d\x63\x8d\x28\xbf\x89\x1a\xc1\xa1\xdd\xa1\x65\x4c\x6e\x1b\x63\x3d\x64\x2c\x49\x95\xa9\x53\x96\xa4\x1a\xfd\xf0\x53\x6c\xbc\x6f\x8e\x9f\x8b\xa6\xb1\x66\x4d\x23\xb6\xd5\x5e\x6e\x31\x65\x2c\xe9\x3a\xb9\x06\xfc\x0e\x7c\x6e\xf4\x5a\xd6\x7c\x69\x85\x76\x01\x34\x15\x4a\xa5\x90\x6a\xe1\x5d\x0a\x7d\xcf\x92\xb4\x96\x7e\xd3\xae\x78\x69\xb6\x05\x8d\x5e\x49\x13\x7e\x79\x6d\x52\x02\x42\x5d\x51\xd8\x7f\x22\xd6\xb6\x29\x47\x44\x63\x6a\x85\xbc\x36\x4a\xe8\x9a\x1b\x5b\x17\x61\xf2\x80\xc6\x92\x66\x05\x69\xd7\xf1\xc5\x87\xbb\x90\xeb\x42\xf8\x0d\x5c\xf5\x3d\xa5\xd1\x75\xfc\x74\xb0\x20\x5d\x64\x89\x29\xcb\x19\xdb\x09\x4b\xc2\xfc\x0d\x43\xb6\xfc\xd6\x5a\x63\x69\x40\xa3\x1f\x5e\x72\xc6\x82\xc9\x44\x14\x4a\xa3\xbd\x90\xda\x81\xdf\x20\x58\xfc\xde\x4a\x8b\x15\xac\x25\xaa\xca\xc1\xda\x58\x18\x1d\x16\xa3\xfe\xfe\x47\x83\xe3\x6a\xe7\x6d\x5b\x7a\xe8\x58\xf2\x69\xb9\x5c\x5c\x57\x95\xa5\x21\xa9\x6b\x96\xdc\xe0\xaa\xad\x4f\x46\xfe\x78\x58\xcc\x4f\x06\xee\xaf\x97\x8f\xe7\x6b\x60\x65\x8c\x62\x7d\x20\xf9\xd0\x6a\x70\x5e\x58\xef\x40\x80\xc6\x3d\x90\xa5\x03\x91\x19\xd4\x0f\x8b\xf9\xf4\x22\x74\x05\x02\xaa\x80\x10\xc7\x60\x2f\xfd\x86\xf2\x22\xa4\x46\x38\x87\x15\xa5\x4b\xbc\x29\x58\x99\xba\x46\xcb\xd6\xad\x2e\x69\x9f\xac\x5c\xd7\x43\x5a\x39\x25\x54\x14\x70\xdd\x34\x4a\x96\xc2\x53\x71\x56\x66\x2b\xa4\x66\x09\xea\xaa\x31\x52\x7b\x07\x6f\xdf\xc3\xed\xf8\x92\xe5\x2c\xac\x58\x90\xe3\x53\xa8\xb5\x25\x45\x6d\xc5\x37\xcc\xca\x8d\xd0\x80\xa4\xff\x10\xfa\x18\x39\xde\x69\x8f\xd6\xb6\x8d\x07\x96\xd4\xe6\xf0\x9a\xd1\xea\x21\x34\xca\xa2\xa4\xf3\xd4\x93\x2c\x91\x6b\x28\xd7\x35\x8f\xc3\x1d\x4b\x68\x21\xa5\x91\x05\xe2\x49\xa2\x4c\xcd\x17\x56\x6a\xaf\x74\x96\xfa\xb1\x12\xd3\x19\xa4\x41\x1e\x7a\x10\x55\x65\xd3\xd9\x01\x86\x6c\xa0\xdd\x92\x64\x4b\x94\x49\x66\x7e\x8f\xfb\x40\xf2\x4b\xfb\x94\xe5\x61\x8a\x7f\x12\xba\x52\x98\xa5\x45\x00\x8a\xbd\x55\xa4\xb3\x18\x1f\x27\xed\x47\x62\x12\x66\xf8\x9d\xae\xf0\x29\xbf\xb4\xb6\xdc\x56\x4a\x6a\xfc\x35\xc4\x3c\x06\x5c\x04\xa1\x3f\x52\x5d\x00\x59\xc4\x80\x8b\x20\xee\xc7\x76\x65\xd4\xaf\x31\x1e\xc3\xfc\x45\x08\x6f\x45\x79\x81\xc5\x92\xa6\xf3\xa8\x72\xa8\x8d\x77\x57\x31\xf4\x73\x70\xf6\x5a\x57\x41\xee\xec\xc4\x94\x19\x6c\x69\xcb\x9e\x1c\x18\xcf\x19\x4e\xcd\xf6\x09\x55\x83\x96\x7f\x41\xbf\x31\x95\xa3\x83\xa5\x28\x80\x26\x60\x72\x7c\xaa\x94\xa9\x39\xff\xf7\x1e\xd2\xf4\x65\x25\x43\x6b\x7f\xaa\x98\x11\x2e\x68\xb1\xa1\x7a\x69\x56\xfc\x8b\xf8\x86\x81\x57\xcc\x3b\x9b\x1a\x65\x16\x58\xc5\x72\xff\xda\x50\x33\xb9\x2c\xe7\x9c\xe7\xbf\xa3\xc3\xb8\xd5\x0c\x36\xa7\x32\xbc\xfc\xdc\x2d\x8a\x78\x60\x9c\xcb\x33\x1d\x4c\xaf\x90\x87\x20\xd3\xd9\xb1\x3a\x23\x5a\xc8\x4f\xe9\x19\x75\x3d\x69\x44\x07\x70\xcc\x30\x4b\x7d\xd9\x3c\x17\x4d\xb9\xd8\x40\x43\x4b\x15\x77\x9e\x14\x42\x6b\xc3\xbb\x45\xdf\x5a\x4d\x8f\x7d\xa8\x24\x67\x77\x47\x0e\x10\x5c\x94\xfa\xd8\x80\xc3\xe8\x99\x01\xe1\x1c\x23\x91\xa6\x76\xb7\xb1\xd9\x9b\x15\x7f\xc0\x9a\xf8\xda\xae\xe3\x8f\xf1\x8e\xe1\xf7\x62\x8b\x7d\x3f\xc4\xb9\x19\x38\xbb\x3b\x2d\x68\xc7\xa3\x79\x4a\xbf\xce\xaf\xc3\xcd\x5b\x14\x40\x17\xc4\x33\x7e\x4d\xf7\xc6\x2b\xfc\xa2\xb5\xa7\x7e\x8d\x68\x21\xeb\xd2\xe8\x23\xc7\xe8\x9e\x9f\x1b\xad\xb1\xf4\xd9\x59\xe8\x4b\xcd\x22\x74\x65\x1c\x12\x20\xa1\x07\xbe\x25\xfc\x7f\xda\x65\xe0\x9e\x94\x7c\x4e\x71\xd1\x86\xb0\x6e\xbc\xcc\x1f\xd1\x7f\x94\x5a\x28\xf9\x0f\xda\x2c\x52\x9d\x20\xf3\x67\xaa\x81\xf8\x9e\x57\x43\x18\x6d\x57\xae\xb4\x72\xf5\x7c\x4b\x42\x40\x08\x2b\x29\x78\xd8\x2a\x78\xfd\xaa\xc4\x7f\x2e\x83\x60\xee\xed\x93\xf4\xec\xd4\x29\x7c\x92\x64\xd2\xbb\xab\x78\xf9\xf5\x2c\xde\xce\xf7\xb8\x3f\xdc\xb4\x6e\x57\x12\xb9\x5f\xd4\x64\x4e\x73\x53\xf0\x70\x8f\x7f\x68\x9d\xd4\xe8\xdc\x74\x33\x13\xc6\x7b\x18\xbe\x9b\xf8\x5f\x56\x34\x03\x16\xa1\xe7\x91\xdd\x80\x31\xad\x19\xbe\xac\xba\xce\x0a\x5d\x23\xbc\x91\xa4\xf3\xc4\x61\x38\x86\xe9\x7b\x8c\x25\x49\xd7\x2d\xcd\x67\xb3\x47\x0b\x6f\xe4\x40\x6f\xc2\x9b\xcc\xe9\xba\xb3\xc9\x61\xfb\xa9\x5b\xc8\xd3\x93\x0f\x8e\xe3\xe4\xba\xdf\x26\x73\xb6\xcf\x5b\x00\x80\x0b\x24\x67\x47\x1c\x62\x27\x92\x46\xe0\x50\x61\x49\xff\x11\x1c\x04\x0e\x9f\x58\x5b\x59\x55\x0a\xf7\xc2\xa2\x3b\xe6\x7b\xaa\xf0\xc1\xc1\x29\x82\xd2\x8b\x85\x02\xd3\x18\xeb\xd9\xbf\x01\x00\x00\xff\xff\xbf\x27\xcc\x30\x82\x0c\x00\x00")
+var _serverServerGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\x9c\x57\x4b\x6f\xdb\x38\x10\x3e\x8b\xbf\x62\x2a\xf4\x20\x2f\x1c\xea\x5e\x34\x87\xd4\x49\xb7\x01\xb6\xa9\x91\x18\xbb\xc7\x05\x2d\x8d\x65\xa2\x34\xa9\x0e\x29\x3b\x5d\x41\xff\x7d\x31\xd4\xc3\x76\x93\x06\x6d\x2e\xb1\x38\x8f\x6f\x1e\xdf\xf0\x91\x3c\x87\x85\x2b\x11\x2a\xb4\x48\x2a\x60\x09\xeb\xef\xb0\x56\xe4\xac\x84\xeb\x2f\x70\xf7\x65\x05\x37\xd7\xb7\x2b\x29\xf2\x1c\xee\x91\x1a\x6b\xb5\xad\x7a\x03\x38\x68\x63\xc0\xed\x91\x0e\xa4\x03\x42\xd8\x6a\x0f\x1b\x6d\x30\x1a\xff\x8d\xe4\xb5\xb3\xef\xa0\x6d\xe5\xf0\xdd\x75\x27\x0a\xb8\x56\x01\x4f\xb5\xbc\xee\x3a\x21\x6a\x55\x7c\x55\x15\x82\x47\xda\x23\x09\xa1\x77\xb5\xa3\x00\x99\x48\x52\xe3\xaa\x54\x24\xa9\xc5\x30\xfc\xe4\xdb\x10\xea\xd3\xef\xbc\xae\xc9\x6d\x58\x42\x8d\x0d\x7a\x87\xa9\x10\x49\xdb\xea\x0d\xe0\x37\x90\x0b\x67\x37\xba\x92\x2b\x52\xd6\x47\xd0\x54\x19\x93\x42\x6a\x55\xf0\x29\x74\x9d\x48\xd2\x4a\x87\x6d\xb3\x96\x85\xdb\xe5\x2c\xbd\xd0\x2e\xfe\xca\xca\xa5\x0c\x84\xb6\xec\xba\x5f\x40\xac\xa8\x2e\x46\x44\xe7\x2a\x83\xb2\x72\x46\xd9\x4a\x3a\xaa\xf2\xa8\x3c\xa2\x89\xa4\x5e\x43\xda\xb6\x72\xf9\xe1\x36\xd6\xba\x54\x61\x0b\x17\x5d\xc7\x65\xb4\xad\x3c\x17\xe6\xdc\x17\x5d\x60\x2a\x66\x42\xec\x15\x71\x63\xfe\x85\xa1\x5a\x79\x43\xe4\x88\x05\x16\xc3\xb0\x98\x09\xee\x7a\x5f\x3a\x14\xce\x06\xa5\xad\x87\xb0\x45\x20\xfc\xd6\x68\xc2\x12\x36\x1a\x4d\xe9\x61\xe3\x08\x46\x86\xd5\xd8\xff\xf0\xbd\xc6\xd1\xdb\x07\x6a\x8a\x00\xad\x48\x3e\xad\x56\xcb\xab\xb2\x24\xf0\x81\xb4\xad\x44\x72\x8d\xeb\xa6\x3a\x93\xfc\x79\xbf\x5c\x9c\x09\xee\xae\x56\x0f\x67\x82\xe8\x03\x6b\xe7\x8c\xe8\x62\x92\xf7\x8d\x05\x1f\x14\x05\x0f\x0a\x2c\x1e\x80\x29\x1d\x12\x99\x43\x75\xbf\x5c\x4c\x0b\x65\x4b\x50\x50\x46\x84\x5e\x06\x07\x1d\xb6\x5c\x17\x23\xd5\xca\x7b\x2c\xb9\x5c\xce\x9b\x8d\x8d\xab\x2a\x24\xb1\x69\x6c\x01\xf7\x8d\xcd\x8a\x4d\x35\x94\x35\xe3\x82\xf2\x1c\xae\xea\xda\xe8\x42\x05\x1e\xce\xd2\xed\x94\xb6\x22\x41\x5b\xd6\x4e\xdb\xe0\xe1\xdd\x25\xdc\x8c\x8b\x6c\x26\xa2\xc7\x92\x19\x9f\x4c\x89\x0a\xb6\xda\xa9\xaf\x98\x15\x5b\x65\x01\xb9\xff\x83\xe9\x43\x9f\xe3\xad\x0d\x48\xd4\xd4\x01\x44\x52\xb9\xe3\x32\x43\xa2\x62\x30\xed\xdb\x62\xb4\x0f\xbc\x27\x45\xa2\x37\x50\x6c\x2a\xd9\x8b\x5b\x91\xb0\x23\x97\x91\xc5\xc4\x93\xc4\xb8\x4a\x2e\x49\xdb\x60\x6c\x96\x86\x71\x12\xd3\x39\xa4\xb1\x3d\xfc\xa1\xca\x92\xd2\xf9\x11\x86\x69\xe0\x68\x49\xb2\xe3\x94\xb9\xcd\xf2\x0e\x0f\x31\xc9\xcf\xcd\x63\x36\x8b\x2a\xf9\x49\xd9\xd2\x60\x96\xe6\x11\xa8\xdf\x5b\x79\x3a\x8f\xb4\x0c\x4a\xfa\xc8\x99\x44\x8d\xbc\xb5\x25\x3e\xce\x5e\xf2\x2d\x76\xa5\xd1\x16\x7f\x0e\xb1\xe8\x0d\x5e\x04\xe1\x3f\xda\xbc\x00\xb2\xec\x0d\x5e\x04\xf1\xdf\x77\x6b\x67\x7e\x8e\xf1\x10\xf5\x2f\x42\x04\x52\xc5\x0b\x59\xac\x58\x3d\xeb\xbb\xcc\xec\xc2\xfb\x8b\x3e\xd8\x5f\x91\xd9\x2b\x5b\xc6\x76\x67\x67\xa4\xcc\x61\xc7\x21\x3b\x66\x60\x3c\x67\x24\x6f\xb6\x4f\x68\x6a\x24\xf9\x19\xc3\xd6\x95\x9e\x0f\x96\x3c\x07\x56\xc0\xc4\xf8\x34\x29\xd3\xe6\x7c\x73\x09\x69\xfa\x7b\x23\xc3\xbe\x3f\x4c\xcc\x08\xc7\x89\x25\x5b\x9e\x97\x7a\x2d\x3f\xab\xaf\xc8\x8a\xa1\xee\x6c\xda\x28\xf3\x98\x55\x2c\x8d\xbe\xd4\xbc\x99\x7c\x36\x93\x52\xce\x7e\xa5\x0f\x63\xa8\x39\x6c\xcf\xdb\xf0\xfb\xe7\x6e\x9e\xf7\x07\xc6\xd3\xf6\x4c\x07\xd3\x2b\xda\xc3\x90\xe9\xfc\xb4\x3b\x23\x1a\xe7\x9b\x18\x3b\xe7\x5d\xcf\x3d\xe2\x03\xb8\xaf\x30\x4b\x43\x51\x3f\x67\xcd\x77\x08\x11\xbc\xb9\x04\xab\x4d\x4f\xcc\xd4\x21\x24\x8a\x6b\xc2\xd0\x90\xe5\x4f\xbe\x28\x92\xc4\xd3\xfe\x84\x01\x0e\xde\xb7\xfa\x94\x80\xa3\xf4\x09\x01\xf1\x1c\xe3\x26\x4d\xdb\x9d\x78\xd4\x92\xa4\x5e\xcb\x7b\xac\x38\x5f\x6a\x5b\xc9\x1a\x5d\xa0\xbc\x53\x3b\xec\xba\xc1\xce\xcf\xc1\xd3\xfe\x7c\xa0\x7d\x34\xc5\xcc\xd8\xd7\xf1\x75\xbc\x79\xf3\x1c\xf8\x82\x78\x86\xaf\xe9\xde\x78\x05\x5f\xec\x7b\xce\xd7\x88\xc6\xf9\x26\x85\xb3\x27\x8c\xf1\x3d\xbf\x70\xd6\x62\x11\xb2\x27\xa6\xbf\x4b\x16\xa3\x1b\xe7\x91\x01\x19\x3d\x6e\xbf\x02\xfe\x98\xa2\x0c\xb9\x27\x85\x5c\xb0\x5d\x4f\x43\xf4\x1b\x2f\xf3\x07\x0c\x1f\xb5\x55\x46\xff\x87\x94\xf5\xa9\x4e\x90\xb3\x67\xa6\x81\x4b\x7b\x3a\x0d\x51\xda\xac\x7d\x41\x7a\xfd\xcc\x44\xf0\xb8\xc6\x79\x8a\x9e\x6c\x3c\x84\x8a\x5c\xbf\xaa\xf0\x1f\xc7\x20\x92\x7b\xf3\xa8\x83\x38\x67\x0a\x1f\x35\x93\xf4\xfe\x82\xfb\x38\xe3\x37\x00\x37\x09\xee\xf0\x70\xbc\x69\xfd\xbe\xe0\xe4\x7e\x32\x93\x33\xd6\x4d\xc6\xc3\x3d\xfe\xa1\xf1\xda\xa2\xf7\xd3\xcd\xcc\x18\x97\x30\xbc\x9b\xe4\x3f\xa4\xea\x01\x2b\xf3\xfb\x62\x16\x7d\x46\x8c\xc9\x67\x78\x59\xb5\x2d\x29\x5b\x21\xbc\xd5\xcc\xe1\x94\xc3\x70\x0c\xf3\x7b\x4c\x24\xd3\x23\xa1\x6d\xdf\xea\x21\x3d\x98\x48\x39\x11\x8e\x41\x86\xb0\xd3\x2e\x61\x2e\x27\xc2\x06\x3e\x47\x5b\xdf\xfe\x62\x12\xcf\xc4\x79\x07\x00\xf0\x4c\x72\xf3\x93\xd8\xfd\x45\xc2\x3d\x01\x8f\x06\x0b\xfe\x0f\x60\x8a\xdd\x3f\xa9\x76\xba\x2c\x0d\x1e\x14\xa1\x3f\xcd\xf3\xbc\xa3\x93\xcf\x71\xf4\xb8\xac\x7e\x47\x4c\x49\x78\xd1\x89\xff\x07\x00\xff\x78\xa5\xd2\x72\x0c\x00\x00")
 
 func serverServerGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -193,8 +193,8 @@ func serverServerGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "server/server.go.tmpl", size: 3202, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xb7, 0xbe, 0x7f, 0xc4, 0xf4, 0x24, 0x4a, 0xd, 0x74, 0xa5, 0xcb, 0x3a, 0x7e, 0x5e, 0xda, 0xd5, 0x13, 0x5f, 0xc, 0x2a, 0x75, 0xd0, 0x4a, 0x3a, 0x15, 0xb3, 0xbd, 0xcb, 0x36, 0x4d, 0x52, 0xc0}}
+	info := bindataFileInfo{name: "server/server.go.tmpl", size: 3186, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x22, 0x4b, 0x84, 0x8c, 0xef, 0x9d, 0xb4, 0x1d, 0xd1, 0x7, 0x43, 0xda, 0x37, 0x33, 0xe4, 0x3, 0x6e, 0x34, 0xd6, 0xdd, 0x28, 0xec, 0x2, 0xd9, 0x66, 0xe9, 0xc, 0xb0, 0xae, 0xe4, 0xc0, 0x34}}
 	return a, nil
 }
 
-- 
2.43.0


From 8cdf27ebfeaaa169a24f004526e1f3c523013455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:34 +0000
Subject: [PATCH 37/45] fix: members of a oneof which are enums, messages or
 bytes can be in the query string

---
 gengokit/httptransport/httptransport.go | 11 ++++-------
 svcdef/resolvetypes.go                  |  4 ++++
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index f15eb00..4181efd 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -91,9 +91,11 @@ func NewBinding(i int, meth *svcdef.ServiceMethod) *Binding {
 				LowCamelName:   LowCamelName(oneofType.Name),
 				Repeated:       oneofType.Type.ArrayType,
 				GoType:         oneofType.Type.Name,
+				StarExpr:       oneofType.Type.StarExpr,
 				LocalName:      fmt.Sprintf("%s%s", pkg.GoCamelCase(oneofType.Name), pkg.GoCamelCase(meth.Name)),
 			}
-			if oneofType.Type.Enum == nil && oneofType.Type.Map == nil {
+			// Type.Message is the type which wraps the member
+			if oneofType.Type.Enum == nil && oneofType.Type.Map == nil && pkg.IsGoBaseType(option.GoType) {
 				option.IsBaseType = true
 			}
 			// else {
@@ -112,12 +114,7 @@ func NewBinding(i int, meth *svcdef.ServiceMethod) *Binding {
 			option.IsEnum = oneofType.Type.Enum != nil
 			option.ConvertFunc, option.ConvertFuncNeedsErrorCheck = createDecodeConvertFunc(option)
 			// option.TypeConversion = fmt.Sprintf("&pb.%s{%s: %s}", oneofType.Type.Message.Name, pkg.GoCamelCase(oneofType.Name), createDecodeTypeConversion(option))
-			typeConvStr := "&%s{%s: %s}"
-			// 如果是指针类型
-			if oneofType.Type.StarExpr {
-				typeConvStr = "%s{%s: %s}"
-			}
-			option.TypeConversion = fmt.Sprintf(typeConvStr, oneofType.Type.Message.Name, pkg.GoCamelCase(oneofType.Name), createDecodeTypeConversion(option))
+			option.TypeConversion = fmt.Sprintf("&%s{%s: %s}", oneofType.Type.Message.Name, pkg.GoCamelCase(oneofType.Name), createDecodeTypeConversion(option))
 			option.ZeroValue = getZeroValue(option)
 			option.WrapperType = oneofType.Type.Message.Name
 
diff --git a/svcdef/resolvetypes.go b/svcdef/resolvetypes.go
index 57f9ab3..6e197ca 100644
--- a/svcdef/resolvetypes.go
+++ b/svcdef/resolvetypes.go
@@ -28,6 +28,10 @@ func resolveTypes(sd *Svcdef) {
 	for _, m := range sd.Messages {
 		for _, f := range m.Fields {
 			setType(f.Type, tmap)
+			// The Message of a oneof's member is the type it is wrapped in
+			for _, member := range f.Type.Oneof {
+				member.Type.Enum = tmap[member.Type.Name].Enum
+			}
 		}
 	}
 	if sd.Service != nil {
-- 
2.43.0


From f0a3deb0f5c04c8dedd9a5ffbb79be20e9a5ee75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:34 +0000
Subject: [PATCH 38/45] fix: a oneof called "server" is not taken for a service

---
 svcdef/svcdef.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svcdef/svcdef.go b/svcdef/svcdef.go
index c988bf2..2f58f12 100644
--- a/svcdef/svcdef.go
+++ b/svcdef/svcdef.go
@@ -248,7 +248,8 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 				// care about, but structured a bit differently. Additionally,
 				// oneof fields are generated as interfaces and captured here
 				// to aid in their generations
-				if !strings.HasSuffix(t.Name.Name, "Server") {
+				// (the one of a oneof called "server" is not exported)
+				if !strings.HasSuffix(t.Name.Name, "Server") || !t.Name.IsExported() {
 					// is prefixes indicates oneof, we'll use this to form Fields later
 					if strings.HasPrefix(t.Name.Name, "is") {
 						oneofExists[t.Name.Name] = struct{}{}
-- 
2.43.0


From 5604b4098b3edf9aaf5d9fbe41a77e5e89c73621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:34 +0000
Subject: [PATCH 39/45] fix: a service whose name starts with Unsafe is found

---
 svcdef/svcdef.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/svcdef/svcdef.go b/svcdef/svcdef.go
index 2f58f12..2558aa4 100644
--- a/svcdef/svcdef.go
+++ b/svcdef/svcdef.go
@@ -232,6 +232,13 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 			return nil, errors.Wrap(err, "cannot retrive type specs")
 		}
 
+		interfaces := map[string]bool{}
+		for _, t := range typespecs {
+			if _, ok := t.Type.(*ast.InterfaceType); ok {
+				interfaces[t.Name.Name] = true
+			}
+		}
+
 		// oneof names
 		oneofExists := map[string]struct{}{}
 
@@ -240,7 +247,7 @@ func New(goFiles map[string]io.Reader, protoFiles map[string]io.Reader) (*Svcdef
 			switch t.Type.(type) {
 			case *ast.InterfaceType:
 				// Exclude Unsave{NAME}Server interface
-				if strings.HasPrefix(t.Name.Name, "Unsafe") {
+				if strings.HasPrefix(t.Name.Name, "Unsafe") && interfaces[strings.TrimPrefix(t.Name.Name, "Unsafe")] {
 					break
 				}
 				// Each service will have two interfaces ("{SVCNAME}Server" and
-- 
2.43.0


From 0999cfaff0d669e21c58f0e304ea1809530ee142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:58 +0000
Subject: [PATCH 40/45] fix: fields whose Go name has an underscore added
 (string, reset) can be in paths and bodies

---
 gengokit/httptransport/httptransport.go | 13 ++++++++++---
 svcdef/consolidate_http.go              | 11 +++++++++--
 2 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/gengokit/httptransport/httptransport.go b/gengokit/httptransport/httptransport.go
index 4181efd..acaea33 100644
--- a/gengokit/httptransport/httptransport.go
+++ b/gengokit/httptransport/httptransport.go
@@ -254,10 +254,12 @@ func NewBinding(i int, meth *svcdef.ServiceMethod) *Binding {
 //     }
 func (b *Binding) PathSections() []string {
 	isEnum := make(map[string]struct{})
+	camelNames := make(map[string]string)
 	for _, v := range b.Fields {
 		if v.IsEnum {
 			isEnum[v.CamelName] = struct{}{}
 		}
+		camelNames[v.QueryParamName] = v.CamelName
 	}
 
 	rv := []string{}
@@ -266,9 +268,14 @@ func (b *Binding) PathSections() []string {
 		open, close := strings.Index(part, "{"), strings.Index(part, "}")
 		if open >= 0 && close > open+1 {
 			name := part[open+1 : close]
-			convert := fmt.Sprintf("url.PathEscape(fmt.Sprint(req.%v))", pkg.GoCamelCase(name))
-			if _, ok := isEnum[pkg.GoCamelCase(name)]; ok {
-				convert = fmt.Sprintf("url.PathEscape(fmt.Sprintf(\"%%d\", req.%v))", pkg.GoCamelCase(name))
+			// "string" is "String_", since messages have a method called "String"
+			camelName, ok := camelNames[name]
+			if !ok {
+				camelName = pkg.GoCamelCase(name)
+			}
+			convert := fmt.Sprintf("url.PathEscape(fmt.Sprint(req.%v))", camelName)
+			if _, ok := isEnum[camelName]; ok {
+				convert = fmt.Sprintf("url.PathEscape(fmt.Sprintf(\"%%d\", req.%v))", camelName)
 			}
 			// what is around the parameter, for example ":cancel"
 			if before := part[:open]; before != "" {
diff --git a/svcdef/consolidate_http.go b/svcdef/consolidate_http.go
index 36b0afb..cc735d9 100644
--- a/svcdef/consolidate_http.go
+++ b/svcdef/consolidate_http.go
@@ -173,7 +173,7 @@ func paramLocation(field *Field, binding *svcparse.HTTPBinding) string {
 	for _, param := range pathParams {
 		// Have to CamelCase the data from the parser since it may be lowercase
 		// while the name from the Go file will be CamelCased
-		if pkg.GoCamelCase(strings.Split(param, ".")[0]) == field.Name {
+		if isFieldName(strings.Split(param, ".")[0], field) {
 			return "path"
 		}
 	}
@@ -185,7 +185,7 @@ func paramLocation(field *Field, binding *svcparse.HTTPBinding) string {
 				return "body"
 				// Have to CamelCase the fields from the protobuf file, as they may
 				// be lowercase while the name from the Go file will be CamelCased.
-			} else if pkg.GoCamelCase(strings.Split(optField.Value, ".")[0]) == field.Name {
+			} else if isFieldName(strings.Split(optField.Value, ".")[0], field) {
 				return "body"
 			}
 		}
@@ -194,6 +194,13 @@ func paramLocation(field *Field, binding *svcparse.HTTPBinding) string {
 	return "query"
 }
 
+// isFieldName reports whether a field has the given name in the definition. Its
+// Go name may be different from the CamelCased name: "string" is "String_", since
+// messages have a method called "String".
+func isFieldName(name string, field *Field) bool {
+	return name == field.PBFieldName || pkg.GoCamelCase(name) == field.Name
+}
+
 // Returns a slice of strings containing all parameters in the path
 func getPathParams(binding *svcparse.HTTPBinding) []string {
 	_, path := getVerb(binding)
-- 
2.43.0


From 19f2a55ba25034e69f612a97db807d7902dce5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:50 +0000
Subject: [PATCH 41/45] fix: handlers with a value receiver are kept

---
 gengokit/service/services.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gengokit/service/services.go b/gengokit/service/services.go
index f65024a..34f0c08 100644
--- a/gengokit/service/services.go
+++ b/gengokit/service/services.go
@@ -224,7 +224,7 @@ func updatePBFieldType(t ast.Expr, newType string) {
 }
 
 // isVaidFunc returns false if f is exported and does no exist in m with
-// reciever svcName + "Service".
+// reciever svcName + "Service" or a pointer to it.
 func isValidFunc(f *ast.FuncDecl, m methodMap, svcName string) bool {
 	name := f.Name.String()
 	if !ast.IsExported(name) {
@@ -242,7 +242,7 @@ func isValidFunc(f *ast.FuncDecl, m methodMap, svcName string) bool {
 	}
 
 	rName := recvTypeToString(f.Recv)
-	if rName != "*"+svcName+"Service" {
+	if rName != "*"+svcName+"Service" && rName != svcName+"Service" {
 		log.WithField("Func", name).WithField("Receiver", rName).
 			Info("Func is exported with improper receiver; removing")
 		return false
-- 
2.43.0


From a0d3cfc35ee2f779fddf5eb82b2b82c008ff9c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:31:50 +0000
Subject: [PATCH 42/45] fix: handlers with odd parameters or an empty receiver
 do not end in a panic

---
 gengokit/service/services.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gengokit/service/services.go b/gengokit/service/services.go
index 34f0c08..ed5aa84 100644
--- a/gengokit/service/services.go
+++ b/gengokit/service/services.go
@@ -191,7 +191,8 @@ func (m methodMap) pruneDecls(decls []ast.Decl, svcName string) []ast.Decl {
 // updateParams updates the second param of f to be `X`.(m.RequestType.Name).
 // func ProtoMethod(ctx context.Context, *pb.Old) ...-> func ProtoMethod(ctx context.Context, *pb.(m.RequestType.Name))...
 func updateParams(f *ast.FuncDecl, m *svcdef.ServiceMethod) {
-	if f.Type.Params.NumFields() != 2 {
+	// func NAME(a, b int) has two of them in one field
+	if f.Type.Params.NumFields() != 2 || len(f.Type.Params.List) != 2 {
 		log.WithField("Function", f.Name.Name).
 			Warn("Function params signature should be func NAME(ctx context.Context, in *pb.TYPE), cannot fix")
 		return
@@ -258,7 +259,7 @@ func isValidFunc(f *ast.FuncDecl, m methodMap, svcName string) bool {
 // string of the recv type.
 //	func (s Foo) Test() {} -> "Foo"
 func recvTypeToString(recv *ast.FieldList) string {
-	if recv == nil ||
+	if recv == nil || len(recv.List) == 0 ||
 		recv.List[0].Type == nil {
 		log.Debug("Function has no reciever")
 		return ""
-- 
2.43.0


From 47230450b2fe04c4c6506d1891316e5a9ef97b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:30 +0000
Subject: [PATCH 43/45] fix: an error with the status code of a success is
 answered with 500

A handler error whose StatusCode() is 200 (or another code of a success or
of an informational response) was sent with that code, so the caller of the
HTTP client got a nil error and an empty response; a code below 100 makes
WriteHeader panic.
---
 .../template/NAME-service/baron/NAME.pb.baron.go.tmpl     | 5 +++--
 gengokit/template/template.go                             | 8 ++++----
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index cbd00f1..41c6cbb 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -357,7 +357,8 @@ func MakeHTTPHandler(endpoints Endpoints, options ...httptransport.ServerOption)
 // the provided headers will be applied to the response. If the error
 // implements json.Marshaler, and the marshaling succeeds, the JSON encoded
 // form of the error will be used. If the error implements StatusCoder, the
-// provided StatusCode will be used instead of 500.
+// provided StatusCode will be used instead of 500, unless it is that of a
+// success or not the code of a complete response (1xx).
 func errorEncoder(_ context.Context, err error, w http.ResponseWriter) {
 	body, _ := json.Marshal(errorWrapper{Error: err.Error()})
 	if marshaler, ok := err.(json.Marshaler); ok {
@@ -372,7 +373,7 @@ func errorEncoder(_ context.Context, err error, w http.ResponseWriter) {
 		}
 	}
 	code := http.StatusInternalServerError
-	if sc, ok := err.(httptransport.StatusCoder); ok {
+	if sc, ok := err.(httptransport.StatusCoder); ok && sc.StatusCode() > http.StatusOK {
 		code = sc.StatusCode()
 	}
 	w.WriteHeader(code)
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index a5a63cc..80cd918 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -1,6 +1,6 @@
 // Code generated by go-bindata. DO NOT EDIT.
 // sources:
-// NAME-service/baron/NAME.pb.baron.go.tmpl (28.143kB)
+// NAME-service/baron/NAME.pb.baron.go.tmpl (28.258kB)
 // NAME-service/cmd/NAME/main.go.tmpl (1.381kB)
 // NAME-service/cmd/NAME-client/main.go.tmpl (2.923kB)
 // NAME-service/server/endpoints.go.tmpl (230B)
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x4b\x8f\xe4\x38\x72\xf0\x59\xfa\x15\x31\xc2\x3c\xa4\xfa\xb2\x94\xb3\x1f\xf0\x7d\x58\xd7\xa0\x0c\x77\x57\xd7\x3c\x76\xa7\xbb\x6b\xbb\xab\x77\x0e\x8d\xc6\x2c\x33\xc5\xcc\xe4\x96\x52\x52\x8b\x54\x55\xe5\xa6\xf3\xe2\xcb\x1a\xb0\x01\x03\x3e\xf9\x60\x2c\x7c\xf2\xd5\xf0\xd9\xbf\x67\xc7\xd8\x7f\x61\x04\x19\xa4\xa8\x4c\x29\x1f\x3d\xb3\x3e\x18\x2e\x60\xa7\x53\x12\x19\x0c\x46\x04\x83\xf1\x22\x77\x3c\x86\xab\x32\xe3\x30\xe7\x05\xaf\x99\xe2\x19\x4c\x56\x30\x61\x75\x59\xa4\xf0\xec\x25\xbc\x78\x79\x0b\xd7\xcf\xbe\xb9\x4d\xc3\xf1\x18\x5e\xf1\xba\x29\x0a\x51\xcc\x4d\x03\x78\x10\x79\x0e\xe5\x3d\xaf\x1f\x6a\xa1\x38\xa8\x85\x90\x30\x13\x39\xd7\x8d\x7f\xcd\x6b\x29\xca\xe2\x02\xd6\xeb\x94\x7e\x6f\x36\xde\x07\x78\xc6\x14\xf7\xbf\xe2\xf3\x66\x13\x86\x15\x9b\xde\xb1\x39\xc7\x2f\x37\xe6\xe7\x0b\xb6\xd4\x5f\xc6\x63\xb8\xb5\x63\xc0\xb4\x2c\x14\x13\x85\x84\x25\x57\x8b\x32\x93\xa0\x4a\x58\xb2\x3b\x0e\xa2\xc8\xc4\xbd\xc8\x1a\x96\x03\x2f\xb2\xaa\x14\x85\x92\x30\xab\xcb\x25\x48\x5e\xdf\x8b\x29\x97\x23\x44\xa3\xe6\xef\x1b\x2e\x15\xb0\x22\x83\x9a\xcb\xaa\x2c\x24\x07\xb5\xaa\xb8\x86\x84\x4d\x71\x46\xa5\xe4\x2d\x94\x11\x30\x09\x0f\x3c\xcf\xf1\x5f\x5e\x4c\xcb\x8c\xd7\x12\x01\x20\xbc\x8c\xd3\xf3\xac\xac\xa9\xa3\x86\x36\xd2\x2f\x18\x52\x6a\x06\x65\x53\x83\x6c\xaa\xaa\xac\x91\xd2\xaa\x66\x85\xc4\xdf\x88\x99\x60\xb9\xf8\x1d\x53\xa2\x2c\x10\xda\xac\xac\x97\x4c\xc9\x34\x0c\xc5\x52\xb7\x88\xc3\x20\x9a\xac\x14\x97\x51\x18\x44\x38\x77\xfe\xa8\xf0\xa7\x46\x43\x14\xf3\xf1\x6f\x65\x59\xe0\x8b\xd9\x52\xbf\x17\xa5\xf9\xef\x58\x94\x8d\x12\x39\x3e\x14\x5c\x8d\x17\x4a\x55\xf6\x77\x53\xeb\xd7\x52\xd5\xd3\xb2\xb8\xa7\x9f\xa2\x98\xcb\x28\x0c\x83\x68\x2e\xd4\xa2\x99\xa4\xd3\x72\x39\x9e\x97\xe7\x77\x42\x8d\xf1\x7f\x96\x16\x51\x18\xb0\x62\x55\x4d\x20\x9a\x97\xe5\x3c\xe7\xe9\xbc\xcc\x59\x31\x4f\xcb\x7a\x3e\xae\xea\x52\x95\x93\x66\x36\xd6\xf3\x1f\xdf\x15\xe5\x43\x31\xd6\xad\xa3\x30\xc8\x9a\x5a\x4f\xf2\x84\xae\x6d\x97\x28\x0c\xf8\xb2\x52\xa7\x8c\x4b\xed\xa3\x30\x98\x09\x9e\x67\x4b\x26\xef\x4e\xe8\xed\xf5\x89\xc2\x40\xaa\xba\x99\xaa\x13\xba\xdb\x0e\x51\x18\x28\xb1\xe4\x52\xb1\x65\x75\x42\x77\xaf\x4f\x14\x06\x0f\x35\xab\x2a\x5e\xcb\x13\x00\xb4\x5d\x76\x59\x5a\x8b\x3c\x67\xe3\x65\xf3\x18\x75\xbf\x54\x77\xf3\x31\xaf\xeb\xb2\xd6\x92\xb6\x67\x20\x27\x79\xfa\x8d\x15\xbf\x3d\x1d\xf4\x0f\x44\x64\xbd\x3e\x07\x31\x03\xfe\x1e\xd2\xab\xb2\x98\x89\x79\x7a\xeb\x56\x42\xc4\xf2\x3c\x82\xa8\x60\x4a\x46\xb0\xd9\x74\x71\xc3\xb7\xe7\xa2\xd4\xff\xa6\x73\x94\x70\x04\xc5\x8b\x6c\xb3\x39\x0a\xea\xbc\xae\xa6\x16\xea\x0e\x9e\xfa\xe3\xe0\x97\xf1\x92\x2b\x96\x31\xc5\xb6\x07\x3d\x7a\x48\x84\xdf\xae\xf8\x81\xf5\xe5\x1a\x58\x74\xbc\xb1\x70\xed\x9e\x00\x00\x9b\x47\x47\x91\xa5\x25\x36\xfe\x3a\x61\x08\x6c\xde\xc1\x31\x09\xc3\xf0\x9e\xd5\x10\x87\xc1\xf7\x70\x09\xb3\xa5\x4a\x5f\x57\xb5\x28\x94\x79\xd6\x0a\x2c\xbd\x2a\x97\x15\xab\xb9\x79\x45\xda\x27\x7d\xa2\x4a\x61\xde\x74\xa6\x99\xbe\xe0\x0f\xaf\x79\x7d\xcf\x6b\xf3\xd1\x68\xb3\xf4\x45\x59\x5d\xe5\xa5\x6c\xdf\xa6\x57\x65\xb5\x32\x0f\x46\x78\xd3\xef\x6a\x56\x85\xc1\x78\x0c\xc4\x4f\x2b\x86\x46\xc7\x63\x53\xad\x92\xd2\x27\x85\xee\xd7\x2a\x99\xf4\x19\xfd\xc4\xd7\xa4\x3e\xd2\x6b\xfc\x17\x5f\xd8\x25\x9d\xbe\xd6\x3f\xf0\x95\xb7\x4c\xd3\x5b\xfb\x1b\x3f\xb4\xcb\x0f\x5b\x8b\x62\xfe\x6b\x96\x37\x7a\xde\x9e\x5e\x49\xbf\xc4\xdf\xcf\x99\xbc\x0b\x93\x30\x1c\x9f\x1d\xf5\x07\xd7\x76\x4f\x02\xfb\xea\xf0\xdf\x58\xef\xa0\xdf\x14\xc0\x70\xbf\xb9\xe7\xf5\x08\x84\xfa\x4c\x42\x23\xf9\xac\xc9\xf5\x36\x35\x6b\x8a\x29\x52\x41\x82\x5a\x30\x05\x05\xc7\x5d\xaa\x84\xb2\xd2\xb6\x01\x94\xd8\xb7\xe2\xf5\xb9\xdd\x06\x10\xe0\x84\x49\x21\x53\xf8\xb2\xac\x81\x3f\xb2\x65\x95\xf3\x11\xac\xca\x06\x96\x62\xbe\x50\x50\x31\x89\x5b\xa4\x87\xb0\x2a\x81\xb9\x81\xcc\x38\x55\x5d\x66\xcd\x94\x4b\x04\xc7\x0a\x2d\x01\xe9\xd7\xac\xc8\x72\xc4\xf1\x41\xa8\x05\x70\x36\x5d\xd0\x4e\x0f\xb1\x1d\x3d\x81\x07\x51\xf3\x0c\x9a\x0a\x91\x64\x20\x2b\x3e\x15\x33\x31\x85\x8a\xa9\x45\x0a\xf1\x37\x0a\x01\x0a\x09\x55\x5d\x4e\xd8\x24\x5f\x01\x83\xa5\x90\xca\x58\x09\x90\x71\x29\xe6\x05\x76\x15\xc5\x7d\x79\x87\xdb\x3d\x07\x14\x36\x31\xe5\xce\xaa\xd0\x28\x72\x84\xd3\xce\xc0\xc8\x00\x88\x96\x92\x69\x12\x8e\xc7\x8e\xba\xd3\x5c\xf0\x42\x75\xa9\xab\x4a\x98\x96\x79\xce\xa7\xca\x33\x50\xf2\x15\x4c\xcb\xc2\x80\xe3\x99\x67\xae\x88\x02\x27\x84\x00\xa5\x28\xe6\xb9\x31\x4c\x0c\xad\x04\x52\x78\xc9\x11\x0f\x1f\x5f\x51\x28\x5e\xcf\xd8\x94\x0f\x71\x02\x81\xb9\xc1\xfa\x8d\xa4\x06\x07\x6b\xad\x12\x6d\x2c\xe0\x02\xbc\xa2\xf9\x4c\xcb\xe5\x44\x14\x9a\x4e\x4b\x42\xd1\x63\xec\x88\x4c\x29\xd5\xd4\x05\x08\x85\x74\x45\x04\xa7\x2c\xcf\x79\x8d\x16\x13\xb3\xc8\xa6\xa1\x9e\xce\x0e\x41\xd7\x61\xf0\xa6\x70\xf3\xe3\xd9\x7a\x9d\xda\x1e\xc6\x04\x24\x4d\xb0\x5e\xd7\xac\x98\x73\xf8\x58\xc0\xc5\x25\xb8\x36\xcf\x0d\xcb\x50\x8f\xad\xd7\x1f\x0b\xea\x63\x47\x01\x00\x37\xd5\xd4\xbe\x0c\xd7\x6b\xa3\x5c\x8d\x75\x69\x5f\xcb\xc3\x43\xa0\x00\x43\xec\x4d\x22\x01\x6f\xd0\x78\xaa\x1e\x81\xac\x34\xdc\x1a\xf0\xdf\x11\x0a\xcc\xd9\x7a\xfd\x55\x89\x88\xc1\xc7\x22\x7d\x65\x4c\xd0\xdb\x55\x65\x27\x98\x40\xbc\xd5\xc2\x18\xa6\x5e\x93\x91\x51\x70\x09\xac\xc3\xc0\xda\xad\xfa\x1d\x22\xca\xd3\x9e\x99\x23\x32\x38\x78\x12\x06\xb8\x59\xd5\x35\x7c\x74\x09\x85\xc8\x11\x42\x40\xfc\x2a\x44\xae\x81\x84\xc1\x26\xb4\xef\x2c\xf4\xf4\x20\x4e\xc9\x08\xe1\x85\x1b\x47\x4e\x24\xe6\x73\x76\xe7\x91\x27\x5c\xaf\xf5\x42\xfe\x58\x71\x44\x34\xdd\x60\xe3\x73\xf0\xa9\xfc\xb1\xe2\x43\x84\x46\x58\x7d\x33\x93\x48\x74\xc5\x7b\xc5\x24\xd9\x65\x37\xac\xdd\xe4\x90\x7f\xfd\x5c\xb2\x8e\x81\x5b\x51\xeb\x4d\x02\xb1\x25\x86\xff\x5a\x53\xcc\x63\x47\x50\xf3\xf7\x38\x11\x82\x90\xc6\x87\xb8\x1d\x06\xc1\xbd\xe3\x9d\xf4\x79\x87\xa8\x69\x54\x92\x30\xe8\xe1\xda\x2e\xdb\x90\x6f\xf6\xed\xbd\x61\x47\x80\x62\xdd\xee\xcd\x3e\x6f\x70\x73\x7c\x92\xe7\xd7\x8f\x53\x5e\x29\xbd\x4f\x49\xa3\x62\x1d\xa5\xf4\x0e\x85\x2e\x0b\xad\x4d\xfb\x41\x82\x66\x23\x43\x28\x9e\x4d\xe0\x48\xfd\x5c\x64\x59\xce\x1f\x58\x6d\xbc\xc0\x37\xd2\xfa\x85\xe8\x04\x55\x55\xbe\x42\x15\x83\x6a\x53\x21\xf0\xa5\x6b\xad\xbd\x2e\x7e\xcf\xeb\x95\x63\x1b\xae\x17\xd4\x20\xe4\xb6\x69\x78\x2f\x2b\xdc\x35\x58\x9e\xaf\x46\xae\x9d\x84\x29\x2b\x60\xc2\xf5\x5e\xc3\x33\xec\x36\x59\x41\x81\x64\x57\x25\xbe\xe7\x8f\xd3\xbc\xc9\x78\x66\xbc\xc0\x09\x47\x14\x70\xce\x15\xcf\xd2\x1d\x6a\xc4\x2d\x4e\x23\x88\x5e\x2b\xa6\x1a\x19\x8d\x20\xba\x11\xc5\x3c\x4a\xdc\xba\x3f\x73\x04\x49\x06\xfb\x3b\x0c\x3d\xaa\x8c\x5a\x6c\xd2\x34\x95\xda\x2c\xd0\xc2\x23\x0a\x7a\x7d\x71\x09\x4b\x56\xbd\x35\x9f\xde\x19\xf2\xaf\x37\x28\x5e\xdb\x0b\xa6\x67\xb5\x04\x41\x10\x79\x62\x14\x5d\xc0\x7a\x33\x0a\x03\xdf\x8c\xdc\x84\x61\x80\x7b\xfd\xf7\x88\x0a\x82\x31\x20\x1d\x5a\x38\x92\x98\xc1\xf7\x23\x28\xef\xf0\xb3\x45\xec\x2d\x7f\x7c\xf7\x05\x7c\x54\xde\x21\xb6\x41\x50\xb1\x42\x4c\xe3\xd6\xc2\x9b\xc5\xd1\xb5\x05\x61\xe7\x0d\x9f\x7d\x22\x3f\x83\xac\xe4\x12\x8a\x52\x01\x7f\x14\x52\x7d\x01\x92\x73\x9f\xf1\xce\xa7\xd4\x26\x3d\x22\x95\x24\x24\xcf\x19\xcf\xb9\xe2\xb1\xc5\x40\x7f\x6b\x27\x20\x8a\x69\x8b\xbe\x6d\x03\xc7\x13\x4a\xcc\x34\x88\xcb\x4b\xe8\x90\x4c\x43\x08\x82\x5e\x55\x0a\x97\x1e\xe6\x71\x6f\x13\xc4\x3d\xd8\x6c\x93\xdc\x2c\xbb\x6f\xd9\x84\xe7\x3c\x6b\xa5\xc1\x84\x50\xe6\x5c\x59\xd9\x45\x79\x77\xd4\xd3\x22\xfc\xb0\xe0\x85\xfb\x5a\x7a\xe2\x4a\xc0\x8c\xd4\x8d\xcc\x2a\xa3\x85\xd0\x98\xc6\x60\xe2\x32\xcc\x04\x77\xc4\x14\x8d\x9a\x5a\x4c\xb5\x99\xd5\x4e\x03\x1e\x16\x62\xba\xd0\x6b\x48\xf2\xa2\x0f\x05\xda\xc9\xa9\xb7\xb5\x63\xca\x9a\xf6\xf1\xdd\x59\xe1\x22\x89\x8d\x00\x8f\x76\xb5\x70\x8f\x62\x0e\x87\xe6\xf5\xc1\xba\x69\x07\xa9\x11\xcd\x53\x53\xbc\xe6\x53\x2e\xee\x51\x35\x71\x33\xc5\x72\xd6\x99\x77\x0a\xaf\x39\x77\x60\x3c\x28\xfa\x83\x35\x44\x09\xe1\xeb\x47\x44\x14\x25\x32\xe3\x8a\x89\x5c\xa2\x9d\x6c\x97\x13\x02\xb1\xc6\x2e\xcb\x85\x5a\xa5\xfb\x54\x48\x67\xee\xf1\xf2\x47\x50\xf4\x7f\xf5\xcc\xff\x1c\x3d\xd3\xe9\x36\x82\x93\xd4\xce\xf1\x01\x8a\x63\x5d\xcf\xaf\x5e\xdd\x5c\xe1\x3c\x79\x7d\xb2\xef\x89\x66\x9c\xd7\x1d\xc3\xb5\xb2\x35\x06\x1c\x7f\x80\xdd\x33\x91\xb3\x49\xce\x8d\xdb\x30\x7f\x75\x73\x05\x03\xce\x00\x2d\xa7\x2e\x64\xe7\x21\xca\x56\x37\x8c\xa0\xd4\xb6\x83\xc4\xf5\xd0\x89\xc5\x68\xf1\xe6\xb5\x31\x2d\x92\xa1\x81\x90\x5d\xd2\x6b\x28\x51\x26\xde\xbe\x1b\x86\x84\xd2\xdb\xf7\xf5\x29\x9f\x95\x35\x8f\x11\xdb\xe7\x14\x53\xba\x2d\xc9\xfa\x4c\x46\xc8\xb5\xad\x71\x2e\xd1\x70\xe2\x45\x16\x77\x5e\xbb\xf9\xa4\x69\x9a\xe8\x40\xc7\x7a\x0d\xb7\xe5\xb7\xe5\x03\xaf\x5b\x41\x44\x52\x21\x73\xad\x69\xf8\x29\x62\x84\x1f\x79\xbd\x46\x37\xe9\xa0\xf4\x2e\x8c\x1b\xee\x49\xdc\x05\x74\x67\xe5\x22\x34\x31\xca\xb3\xa3\x7c\x9f\x90\xa2\x25\x12\x3c\xd3\x81\x72\x9c\xbe\xd7\x82\x8c\x63\xdd\xe0\xba\xe8\x6d\x40\xae\x0e\xb6\xe8\x10\x22\x4d\x53\xec\x86\xa4\xdb\x92\x7d\xd4\xbd\xed\x7c\xb7\x3d\x67\x67\x9b\xf7\xb3\xdb\xd9\xf9\x66\x93\xf3\xe0\xfc\xe4\xde\xea\x2e\x8d\x01\xb6\x88\x4c\xd1\x10\xcf\x9c\x27\x27\x8b\xc2\x14\xa8\x68\x3d\x14\x55\xd9\xce\xf6\xf8\x89\x1e\xc4\x54\x2f\xb5\x58\xc2\x59\x3b\x54\xd2\x82\x3f\xe0\xfd\xa2\x73\xf4\xd3\xba\xbf\xdf\xa3\x87\x54\x79\x0e\xd4\x2e\x21\xf5\x24\xb4\x2c\xf9\x1e\xd5\x89\x6e\x70\xf5\x81\x1e\x30\x11\xd8\x08\xfc\x61\xea\x8e\xc7\xb0\x6f\x6d\x80\x40\x5d\xe8\x44\x42\x07\x88\x53\xd3\x81\x5a\x7c\x89\xec\xd1\x41\x22\x4c\xe8\xf0\x5a\x49\x13\x43\x22\xfd\x69\x95\x83\x03\xec\x5c\x5d\x8c\xe4\x60\xa0\xaa\x3e\xcf\xca\x25\x13\xc5\xbe\xc6\x29\xdc\xd4\x62\xc9\x6a\x91\xaf\x6c\x6c\xcb\x0f\x84\x19\x75\xbc\x6f\x1e\xf1\xf7\xbb\xb2\x81\x73\x79\xc5\xdf\xb7\xb2\xa8\x7d\x6e\xef\xa9\x1b\xf5\xd0\x5e\x36\xf5\x39\xc6\xcb\x76\x9c\x7c\xbf\x87\x4d\xd7\xc5\xd1\x6c\xda\xab\xa1\x7a\xf9\x64\x7a\xd8\x26\x43\x8c\x3a\xcc\x02\x1a\x42\x33\x6c\x0f\x5b\xab\x7c\x75\x14\x9f\xf6\x4e\xa4\x8f\x51\x7d\x61\x90\x7d\x9c\x92\x15\xb2\xca\xf6\x3a\x62\x1d\x79\xcc\x92\x55\x1f\xb7\xbe\xe6\x39\xc6\xd4\x43\x23\x68\xbd\xbb\x68\xbf\xfe\x59\x66\x60\x73\x38\xe9\xf3\x67\xc9\x76\x03\xc4\x17\xb5\xe8\xdd\x08\xee\x5b\x73\x6f\xe9\xec\xd4\xfb\x4e\xfc\x45\xa7\xa2\x39\xdc\xf1\x95\x66\x77\x86\x06\xed\xa4\x54\x0b\xa4\xb1\x1d\x85\x92\xb8\x10\xdf\x25\xe4\x7b\x60\xd3\x3c\x87\x1c\xf9\x45\x50\x18\x79\x5c\x3a\xd6\x7a\xc5\x8a\xb2\x10\x53\x96\x7f\xcd\x59\xc6\xeb\x5f\xf2\x95\x75\x4c\x70\x20\x59\x52\x04\x58\x91\x9f\x67\x41\x4c\xa7\xdc\x06\x3e\xb8\x50\x0b\x5e\xd3\xc8\xf8\x1d\x49\x71\xe9\xe6\xfa\x9d\x50\x0b\x9d\x84\x40\x12\x8d\xf4\x5c\xdf\x7e\xfe\x2e\x39\xd8\x70\x00\xbb\xf8\x2e\x69\x21\x90\xc9\x4f\xec\x9b\xaa\x47\xbd\x03\x5b\x03\x70\xff\x9f\xe6\xa3\x09\x33\x9f\x6c\x54\xbe\xe0\x0f\x5e\x6f\x33\xbc\x4e\x39\x50\xdc\x08\x26\x6c\x7a\x87\xec\x59\xd9\x35\x63\xe2\xf3\x38\xd7\x82\xeb\x74\x47\x0a\xdf\x28\xe4\x23\x45\xfa\x49\x5c\xc5\x44\xa0\xc3\x66\x59\x40\x81\x6c\x55\x42\x26\x58\x6e\xa2\xdd\x39\x53\xbc\x86\x29\xa6\xa2\xd0\x03\xe7\x3e\x4c\x23\xa0\x1d\xec\x62\xfc\x6c\x76\xcf\xd4\xe0\x7b\x55\x16\xc5\x1e\xcb\xd4\x34\xb2\x96\x69\x3c\x60\x9a\xfa\x4b\x0e\x0d\x84\xed\x40\x6b\xe0\xbd\xad\xee\xe6\xb8\xd2\x6c\xbc\xb5\x5b\x61\x11\xec\xba\x34\x7e\x74\xb5\xd5\x81\xc1\x3d\xab\x9d\xf7\xe5\xa9\x8e\x5d\x3f\x34\x0c\x70\xbd\xf4\x35\xbd\xdc\xb5\x23\x89\x4a\x5a\x1c\x91\x30\xe4\x66\x96\x75\x07\x0d\xe4\xb6\x9e\x43\x6c\x1c\x42\x88\x3e\x91\xe9\x27\x32\x6a\x27\xe7\xb7\xc6\x96\x09\xfa\x4d\x1e\x30\xd1\xc2\x70\xf8\x44\xfb\x6c\xcf\xd6\x38\x7d\xc6\x0f\x19\xa7\x07\x34\x9c\x89\xc7\x05\xad\xf1\x8e\x8f\x89\xa3\x57\xac\x1d\x4f\xcd\x08\xb2\x64\xdb\x5f\xf6\x87\x5b\x64\xb6\x93\x3c\x68\xcb\xc3\x39\x81\x72\x38\xdb\xbe\x17\x7e\x62\xc4\xfb\x3e\x6a\xc7\x0b\x36\x56\x11\xa3\x02\xc6\xb9\x03\xad\xb6\x1f\x6f\xda\xec\xd9\x33\x9f\xf1\x63\xf6\xcc\xfd\xbb\xe0\xb1\xa6\x0d\xed\x4f\x03\x7b\xa6\x51\x18\xb4\xa2\x9f\xf1\x13\xf7\x4c\x9c\xcc\x2b\x8d\xcc\x91\x9b\x26\x36\x75\x06\x0e\x6e\xe5\x27\x6d\x9b\x55\xbe\xea\xdb\x37\x7d\xb6\xfd\x78\x53\x67\xd8\x22\xbd\x2e\x8e\xb0\x48\x0f\x33\xc4\x33\x4c\xf7\x70\x78\xaf\x45\xda\xe1\xda\xbe\x79\xf4\x1b\x3a\x34\xc5\xe3\x58\x76\x6a\xde\x67\xbf\x45\x4a\x58\xe8\x9d\x5a\xde\x96\xbe\x91\x63\x56\x4a\xdf\x2e\x41\xe3\xe0\x3a\x31\x82\xba\x07\x4a\x7c\xc7\x57\x12\xde\xbe\xb3\x71\xc1\x03\xf0\x8e\xca\x9b\x2d\x33\x38\x3b\x64\x60\xe9\x7d\xa3\x62\xa2\x6e\x07\x0f\x03\x1b\x25\xbc\x6b\xcd\x2e\x8d\xde\x9a\x82\x67\xf7\x36\x42\x38\x55\x8f\xa9\xa6\x49\x7c\x97\xa4\x14\x0d\x4d\xbe\x00\x1b\x29\x0c\x0c\x60\x17\x2e\xd1\x8f\xc6\xc8\x71\xd1\x31\x54\x9e\x08\x53\x7f\xeb\x58\x74\x67\xcb\x0c\xa3\x6e\x76\x02\xbf\x28\x45\x11\x9f\x2d\xb3\x51\xfb\xea\x06\xfb\xc4\xba\x27\xc6\x5c\x12\x0b\x8e\x28\x83\x16\x0f\x85\xdc\x0c\x27\x8f\x0d\xa8\x7d\x7d\x7b\x7b\x43\x3e\x88\x7d\x77\xf8\x6f\x1c\x86\x3a\x9b\x6f\xa8\x5c\x68\xf1\x82\x4b\x88\x58\x55\xe5\x62\xaa\xeb\x57\x74\x49\xe0\x17\x30\x5d\xb0\x5a\x72\x75\xd9\xa8\xd9\xf9\xcf\x23\x17\x87\xc3\x51\x29\xaa\x40\x49\x7b\x14\x2c\xf2\xa0\x8d\xa2\x3d\x1c\x9f\x43\x60\x65\x01\x55\xcd\x33\x3e\x13\x05\xcf\x74\xe9\x85\xa4\x35\xb7\x35\xcc\xc1\xa8\x5c\xb7\xf2\xa7\x1b\x95\xf3\x6b\x42\xac\x9d\x23\x66\x90\x6a\xf8\xda\x25\xf0\xf4\xd6\x56\x84\x08\x65\xe7\xed\xbb\x61\xe8\x9a\xff\x7d\x9f\x29\x54\x67\xc6\x40\x9b\x57\x76\x22\x75\xfd\x9d\xae\x51\x93\x1b\x75\x53\xc7\xdc\x7b\x18\xee\xf2\x64\xa6\x78\x1d\x6f\x7f\x51\x57\x2d\x6b\x63\x8f\xcd\x89\x06\xb4\x3b\xcb\xa3\xe2\x84\x14\x40\xd2\x31\xc1\x25\x12\x66\xd9\x3c\xa2\xe9\xf5\xaa\x6c\x10\x87\x24\xf4\x2c\x09\x4a\x73\x5c\x5c\x0e\x92\xd9\x35\x9d\x60\x41\x49\x31\x47\x80\xd4\x2d\x7d\x6a\x5e\x51\x10\x7c\x69\xfb\xe9\x68\x36\x35\xc7\xd2\xdf\x09\xfc\x35\xdc\x96\x6f\xb0\xb4\x71\xb3\x89\x92\xf4\x86\xa9\x45\xa7\x0d\xbe\xb8\xe5\xcb\x0a\x6d\x6d\xdd\xc2\x8a\xd3\x40\xa1\x98\x0e\x43\x76\xe3\x90\x84\x51\x4f\x30\x92\xec\x39\x9c\x9e\x37\xa4\x4e\xc3\xb8\xed\xc1\x34\x34\x1c\xc5\x86\x5f\x99\x6c\x9a\xdd\x86\xcd\xe7\xbe\x90\x64\xa0\x13\x0c\x6d\xc8\xce\xff\x49\x4a\x63\x49\x46\x95\x2f\x34\x26\x6d\xa7\xbd\x11\x63\x16\xd8\x04\x9c\x1d\xf1\x3b\xfc\x5e\x8f\xd0\xa3\xc9\xf8\x8c\x35\xb9\xc2\xdd\xce\x08\x08\xae\x48\x1d\xb0\x2c\x67\xb0\xad\x0b\x46\xc0\x60\x52\x66\xda\xa9\x44\xdd\x60\x5c\x02\x74\x2d\x23\x3d\x4e\xe4\xbc\xd1\x7b\xd4\xb2\x08\x4a\xbf\x4f\x35\x76\x71\x62\x7c\x1e\x06\x52\x27\xc5\x01\xe9\x81\xa0\xfe\xdf\xe7\x9f\xa7\xf0\x0d\x25\xd0\xb0\xa5\x1f\x69\x35\xeb\x86\xd7\xba\xe6\x1a\x5b\x54\x75\x79\x2f\xd0\x5d\x5e\xe8\x2f\x58\x4f\x90\xe7\x98\xa5\xd7\xd8\x9a\xbc\x25\xb6\x6b\x6d\x32\x1f\x34\x42\xf1\xa0\xe3\x2c\xd2\xe7\xac\x96\x0b\xa6\x6b\xc5\x2c\xfe\x4b\xf3\x0a\x13\xfd\xb2\x99\x4e\x39\xcf\xa4\xf1\xcf\x7e\xf1\xfa\xe5\x0b\x2a\xdd\xce\x6c\x9d\xb5\x75\xf0\xf4\x5c\x1d\x3a\x98\x43\x1d\x9e\x96\xa9\x0b\xc0\xca\xf9\x7a\x64\xdd\x46\x37\xb3\xf6\x63\x07\x1a\x88\x42\x2a\xce\x32\x4b\x33\xa3\x24\x7d\x0d\xd1\x67\x88\xb8\x12\x93\x11\x3c\x98\xca\xb8\xae\x18\x68\x9b\x11\xb9\x3a\x82\xef\x71\xf9\xf9\x24\x31\xea\x07\xd3\x94\x15\xaf\xd7\x9a\x8b\x17\x38\x17\xcb\x50\xb4\x44\xc4\xcc\x52\x0b\x09\x68\x36\x5a\x6c\x12\x77\x69\xdb\xee\xb3\x62\x06\xf8\xe9\xa9\x1e\x92\xba\x5e\x9b\x08\xac\x03\x64\xfb\x21\xb9\xe3\xe4\x0b\x3b\x02\x36\xbb\xf4\xf6\x5c\x44\x1b\x2e\x1d\x38\x1b\x44\x08\x1e\x52\x23\x36\x71\x92\xbe\xe6\x2a\x8e\x48\x11\x9e\xdf\xae\x2a\x1e\x8d\xfc\x2d\xcf\x4c\x60\x61\x85\xcc\xc7\xbf\xab\x1e\xac\x1c\xb6\xf3\x40\xab\xc3\x33\x39\x2c\x0c\x6a\x29\x63\x4d\xd8\x60\x1b\x97\xbb\x51\x4f\xcb\xf4\x2b\xae\xe2\x3b\x9b\x4e\xdc\x84\x81\x5e\x1a\x17\xa6\x96\x35\x35\xe2\xf0\x0d\x9a\x8e\x05\xcb\xbd\x4d\x42\xe3\x2e\xa7\x7b\xb0\xf6\xc4\xac\x45\x5c\x03\xbf\x04\x39\x25\xc8\xf8\x99\xdc\xc6\x87\x54\x0b\x05\x61\x8c\x0d\x13\xf7\x32\x46\x6a\x27\xa8\x6f\x5a\xb9\x33\xda\xaf\x8e\x27\xcd\x0c\xde\xbe\xc3\xf2\xdc\x84\x64\x7d\x1d\x6a\x5b\xed\x01\x7c\x11\x72\x91\x73\x2b\x67\x6f\x0a\xe2\x2c\x42\x18\xc1\xa7\x0f\xc9\x17\xdb\x91\x75\x63\xa5\x48\xf1\x3b\x0e\x97\xf0\xf3\x9f\xfd\xc5\xff\x37\x22\x94\xf3\x02\xfb\x24\xf0\x97\xe6\x1b\x36\x0d\x10\x8d\x4b\x98\x34\xb3\xb7\x17\xf8\xf2\x1d\x6d\x73\xa4\x2b\xb1\xd6\x44\xd3\x6d\x16\x47\x56\x3b\x00\x4e\x4a\xa7\x7f\x2f\x30\x28\x86\xd9\xdf\x0a\xcd\x1d\x28\xca\xe2\x1c\xe5\xca\x19\xf2\xd8\x30\x1a\x21\x70\x4a\xed\x12\x54\x2a\x17\x7e\xc1\x1f\xe2\x07\xb3\x2e\x34\x8d\xb4\x0e\xf5\xe7\x6e\x8b\x0d\xd6\x61\xa0\x5b\xe1\x33\xea\x97\xdf\xe0\x28\x17\xa4\x40\x7f\x43\xea\x1c\xf9\x4e\xad\x98\x12\x72\x26\xf0\x54\xc9\x82\x3b\x6d\xa8\x15\xa9\xc7\xdc\xd6\xcd\x90\x20\xf4\x01\x10\x7b\x0a\xe6\x98\x2a\xef\xd4\xa4\xa8\xbc\x41\x1d\xaa\x1a\x2d\x3c\xb9\x60\x87\xc2\x91\xc2\xc0\xea\x5e\x00\xbf\x06\xc0\x99\xe4\x56\x46\xe2\x45\x0b\x34\xf1\x74\x5e\x9c\x40\xb7\x9a\x6e\x91\xb6\x23\x0c\xf4\x6e\x97\x15\xbe\xa4\xb5\xd3\x01\x41\x48\x85\x9d\xa8\xfc\x76\x84\xe1\xa0\x4d\xe2\x05\xb0\x0e\x18\x25\x2e\x28\xb1\x77\xf7\xdf\x76\x72\x35\xf6\xfd\x69\x17\x9d\x85\x35\xe7\x80\xb0\x0f\x2a\xbf\x73\xda\x6b\x7c\xff\xd5\x8e\x73\xc3\x6a\x5e\x28\xf2\x09\x9d\x9c\xea\x1a\x35\xdc\x8e\x10\x2b\xfb\x56\x43\x46\x09\x3e\x14\xd5\x0f\xbc\x10\xc5\xde\x69\xf5\xfa\xbc\x70\x46\x1b\x8c\x6e\x32\xec\xef\x06\x19\x9f\xf1\x1a\xea\x14\xb5\x76\x7a\x85\xe1\x4f\x54\x40\x5a\x63\xa0\x2f\xdc\xba\xbf\x5b\x73\x25\xc8\xa8\xb9\xd1\x08\xc2\x05\xef\xd2\x77\x54\xda\xff\x8a\xb3\xec\x49\x9e\xc7\x06\xf8\x71\xe5\x8f\xb6\xde\x7f\x86\x1b\xde\x08\x22\xd2\x04\x35\x6e\xb6\xd6\xe0\xc1\x99\x59\x72\x46\xa4\xa9\xb7\x14\xd1\xe7\x7a\x6e\x41\x63\x95\x1a\x3a\x42\x17\x97\xe0\xce\xb7\xb4\xea\x8e\xec\x3c\xdd\x3c\x78\x92\xe7\xe5\xc3\x0d\xab\x95\x60\x39\x46\xd3\x54\xdd\x90\x51\xf8\x4c\xc8\x29\xab\xb3\x37\x85\x3e\x8b\x74\xd1\x7e\xb1\x75\x21\x38\xf5\x4b\xf0\x07\xdc\x51\xa9\x98\xb1\xdc\x51\xaa\xfd\x6a\x75\x58\xb1\xf6\xaa\x56\x42\xa3\x43\x4c\xb7\x60\xd7\x3d\x64\x25\xea\x7d\x90\xce\x35\x04\x09\xbc\x0d\xf1\x29\xcb\x48\x1c\xe8\x1b\x22\xd0\xa2\xe5\xbc\x75\xf4\x28\x6f\x58\xcd\x96\xd2\xba\x2b\xbf\x66\xb5\x8c\x6b\xe4\x21\x9e\xf7\x68\xbf\xa3\x6f\xff\xbe\xe1\xf5\xaa\x6d\x5e\xa7\x6f\x5e\x7d\x9b\xfe\x0a\x5f\xc6\xb6\x83\xd7\x24\xf4\x7d\x18\x53\xf2\x7a\x71\xd9\x4a\xad\x3e\x9a\x41\x0e\x8c\x2e\xa4\x29\x6c\xb3\xf4\xdb\xd2\x18\xd6\x10\xe9\x49\x9a\x36\x18\x5f\xd5\x50\xd2\xaf\x78\xa1\x07\x75\xdc\x44\xef\xa6\x3f\xac\xbb\x1f\x85\x97\x05\x2f\x67\x3b\x78\xf0\xf7\xbb\x78\xe8\x69\xfd\x18\x44\xdc\xb2\xfa\xb4\xe6\xef\xdb\x34\x38\x39\x2d\x3a\x82\x6c\x9b\xb6\x91\xc1\x1e\x87\xa8\x57\x63\x0e\x25\x40\x8d\x7e\x94\xd6\x3b\x70\xfb\x3a\x93\x5a\x7f\x6e\x7b\x03\xc6\x37\xaa\x4f\x48\x6e\xf6\x20\xd8\xa7\xfb\x7a\x6d\xeb\xa1\x7c\xa7\x33\x91\x86\x14\xc5\xf3\x1d\x35\xb1\xad\x24\x9c\x2e\x78\x23\xf9\x0d\x2a\x18\xd4\x97\xd2\x57\x1f\x6f\x24\xbf\x2e\x9a\xe5\x8b\x66\x39\xe1\xb5\xbc\x68\x3f\x5c\x2f\x85\x7a\x53\x54\x65\xd5\xa0\x4b\x9c\x39\xb5\xb2\x09\x3b\xfa\xb4\xc5\xcd\xa2\xe3\x8a\xd8\xd3\x58\xa3\x9a\x3e\xe7\x52\xb2\x39\x4f\xf6\x95\x44\x58\x31\xf8\x7e\x44\xda\xca\x99\x93\xda\x92\xf2\x5a\xf9\xf9\x59\x57\xf3\x28\xc9\x18\xe8\x8b\xa1\xf4\xc7\x11\x77\x76\xa1\xa1\x44\x6d\x6b\xbb\x5b\x53\x5c\x2b\xbb\x7d\xa9\x59\x04\xbc\x9b\x96\x5d\x30\x09\x0b\x96\x99\xbe\x43\x89\x58\x9d\xfe\xcb\xb0\xb4\x53\x60\x54\xb8\x95\x6f\xff\x50\xb0\x5a\x70\x03\xc5\x18\x52\x32\xb5\x9b\xbe\xcb\xff\xa2\x30\x63\xb4\xd5\x85\x15\x2d\x3a\xe4\x84\xa2\x37\x2e\x4b\x03\xa4\x9b\xed\xdd\x9b\xe7\xdd\x9b\xbd\xbd\x1b\x39\x0a\x79\x9e\xca\xde\x2e\x5b\xf8\xeb\x44\xef\x2e\x0c\x54\x5e\x48\xee\xa6\xe0\xed\xe1\xab\xe9\x02\x75\x59\xaa\xbf\xb0\x5c\x96\xc0\xb2\x8c\xd6\xb0\xd6\xf6\xd0\xd4\x79\xb8\x3f\xdd\x1c\x51\xd3\x73\x3c\xa2\x3c\x22\x25\x7e\xc3\xd4\x22\x39\xd4\xd1\x71\x05\x4b\xf6\x51\xe6\x50\x89\x44\xc9\x07\xe7\xa5\x11\x04\x25\x4d\xec\xbb\x13\xf2\xd2\x5e\xef\x36\xc4\xda\x93\x96\x2e\x00\x5b\x92\xf6\x82\x5c\xdc\xa3\xd5\xca\x14\x51\x6d\x59\x2a\x1d\x5f\xc0\xf0\x01\x2b\xf0\x84\xd7\x77\x58\xae\x5f\x99\xb3\x64\xe6\x1d\xea\xc9\x69\xb9\xe4\xe6\x88\x43\x3b\x48\x26\xe4\x14\x4f\xe8\xaf\x40\xae\xa4\xe2\xcb\x11\x48\x5d\x43\x9e\x8b\x3b\x9e\xaf\xac\xd0\xa1\x18\x41\xb4\x28\xa5\xba\x40\x89\x8e\x48\x81\x76\x66\x10\xbb\xa1\x6c\x19\xf2\x60\xe4\xf6\xf4\xac\xb5\x98\xc1\x47\x56\xe4\xbe\x66\xf2\xa6\xe6\x33\xf1\xe8\x46\x1c\x41\x84\xab\x32\x32\x1e\xb9\xc3\xe3\xd2\xbc\xbe\x18\x8f\x23\xf8\x3f\x8e\x12\x28\x95\x41\xe3\xb4\x60\x53\xe7\xe9\x0d\x5a\x27\x0e\xda\xd1\xf5\x5f\x68\x5c\x34\x21\x9d\xf1\x45\xcf\xb2\xc7\xe3\xa0\xbc\xaa\x39\x0c\x11\xbd\x28\x0d\x23\xbd\xf0\xb6\x29\xcb\xd7\x04\x31\xc1\x20\x04\xf4\x50\xd6\x77\x23\x30\x21\x73\xa0\x9d\x1e\x1d\x3f\x3c\xad\x57\x1b\x7b\xd3\x7c\x15\x48\xc2\xa8\x0d\xdb\x62\x61\x59\x70\xbc\x2f\x14\xac\xd7\x20\x66\x3b\xce\x0f\x21\x8d\x5f\x75\x04\xd0\x1a\x1b\x08\x49\x14\x19\x7f\xdc\xed\xf1\xb9\xed\xa3\x6d\xfc\x5d\xaf\xc2\xce\xb8\xaf\x00\x00\x8d\x0d\xfd\xdf\x60\x4f\xbf\x9e\x73\xbf\x5e\x35\x00\x95\x9b\x0f\x86\x8d\xc9\x82\x0c\xa6\x65\xb5\x7a\xf3\xea\xdb\xb8\x19\x81\xdf\xfe\x29\x93\x1c\xd5\x07\x86\x8f\x6d\xd3\xd6\x3a\xd8\xc5\xaa\x6b\x97\x76\x63\xc4\x44\x99\x9e\xc4\xff\x4e\x56\x3f\xd8\x4e\xec\x5b\xdb\xb6\xe5\x66\xe7\x77\xfb\xd3\xa9\xab\xde\x0c\xff\x5e\xbe\xc3\xf9\x9f\x8b\xf3\x43\x81\x74\x34\x5a\xf6\x88\x04\x15\x45\xec\x9d\xaf\x57\x61\xa0\x35\x8f\xe5\xe3\x84\x49\x0e\x67\xb8\x86\xdf\xbc\xfa\x76\xa4\x93\x4b\xb4\xb5\x26\xee\x35\xae\xdf\x02\xed\x82\x8b\x4b\x38\xc3\x0e\xe6\x51\x27\x12\xc8\x3d\x70\xe4\xfc\x14\xbf\x50\x80\xe1\x4a\x3d\xda\xd4\xe8\x6b\xb4\x6f\xa7\xba\x40\xbe\xa9\x29\x54\x83\xe2\x68\x17\xae\x2a\xa1\x6a\xf2\x5c\xbf\xa7\x7d\x8e\x67\x68\x61\x48\x28\x1b\xdc\xba\xad\xf9\x4a\xdb\x92\x0e\xef\xd0\xb6\xb7\xb4\x26\xac\xef\x80\xa2\xad\x40\xe1\x8e\x14\xe0\x45\xa9\xe8\x70\x2f\x82\x44\x58\x5a\x53\x2c\xd8\x3d\x07\x7b\x69\xc7\x7e\x93\x44\x8f\x33\xd1\xd9\x2a\x3a\xdf\xa6\x8f\xf2\xa0\xe6\xb7\xa8\xe1\x51\x69\x8a\xef\x33\x5b\xec\xa4\x6d\x0f\x9c\xd5\xca\x05\xaa\x5d\x6a\xcf\x3f\x7d\xc7\x6b\xb7\xe1\x52\x6a\xb9\x4b\x3b\x93\x4e\xf6\xce\x99\x0c\xef\x07\x7e\xc4\xa7\xa7\x11\x65\xdc\xf6\x9c\xce\x3c\xc2\x3a\xfc\xc9\x12\xca\xce\xe2\xa1\xc8\xaf\x9f\x47\x76\x7b\x86\xc9\xfb\x26\x28\x55\x48\x6b\xd4\x28\x43\xe5\x31\x07\x15\xf6\x76\x48\xaa\x57\xd9\xec\x8d\x48\x6d\xfb\x57\x14\x8e\x32\xd6\xd8\x76\x48\xca\x46\x69\x68\x18\xdb\xdb\x84\x67\x5a\xdf\x67\x3b\x24\x45\xaf\xd1\xf1\x35\x66\x1e\x65\x49\xdc\x17\x34\xa8\x99\x0e\x07\xfc\xdf\xcf\x3f\xf7\xd3\x45\x23\x78\xa0\x9c\x88\x0e\x78\x56\x35\x47\x23\x87\xe9\xf5\xc0\x0a\x0d\x4b\x1b\x05\x5a\x50\x99\x52\x78\xfd\x02\xae\x1f\x33\x0b\x7f\xfd\x51\x00\x1b\x96\xc6\x85\x69\x71\xb4\x48\x1c\x0c\x99\xd9\xf2\x90\x9e\x90\x59\x2f\xd9\xf7\x47\xcc\xcc\xa0\xa7\x87\xcc\x4e\x89\x80\x5d\x62\x93\xf4\xfa\xe5\x97\x83\x41\x30\x8c\x62\xb7\xb1\x71\x14\x0c\x4d\x02\x40\x3a\xae\xfc\xa8\xd7\x96\xf9\xd3\x07\x0b\x03\x6a\x3d\xf1\x34\x07\x94\xc0\x19\x78\xb5\x97\x8b\x80\x8f\x3a\x89\x8f\x97\xbf\xdc\x3b\xc4\x2c\xde\xce\x44\x24\x23\x88\x3c\x99\xb9\x80\xcf\x3e\xc9\x3e\x8b\x46\x9d\x31\xdc\xd8\x68\x8e\xe0\x84\x0f\x49\x73\x78\x72\x5c\x6f\x30\xac\x37\x14\xd5\xdb\x84\xc7\xc7\xf4\x64\x95\x7c\x71\x98\x09\x3e\x51\xec\x84\xa9\xd1\xa7\x6d\x7d\x74\xd0\x8d\xcb\xf8\x0a\xe8\xba\x38\x51\x01\xb9\x96\x9e\x61\xb0\x63\x12\x9c\x93\xaa\x3a\xc2\x84\xda\x1b\x0b\x72\xd1\xf3\xd0\x79\xbb\x14\x0e\x02\x76\x7c\xc0\x5c\x5f\x44\x81\x2b\xff\x9e\xd5\xa2\x6c\x24\xe0\x76\x82\x56\x18\xee\xcb\xc1\x78\xbc\xbb\xf9\xc6\x68\x47\x8c\x40\x07\xcc\x4c\x4e\x1b\x17\x49\x62\x55\xc1\x11\xd3\xda\xaf\x0b\x74\x93\x81\x12\x32\x17\x3a\xc2\xdb\xa4\xee\x59\x8e\xbc\x88\x22\x8a\x4c\x9a\x57\xfb\x2f\x12\xd8\x22\x06\x8d\x66\x84\xdc\x46\x38\x6b\xfe\x3e\x0c\xb7\xb6\xaf\x41\xd7\x78\xbb\xdd\xb0\xef\x6d\xa2\x12\xaf\xb5\xce\xc6\xd3\xf6\x6a\x81\x81\x5f\xb6\xe4\x0a\xd3\x36\x78\x24\x5c\x2d\x10\x6d\xeb\xc9\xe9\x1a\x2a\x9b\x54\xda\x3a\x2f\x29\xb9\x0e\x0f\x75\x62\x9d\x38\xca\x6b\xf3\xde\x05\x3b\x6d\xc3\xcd\xf6\xf1\x52\x34\x19\xa3\xb1\xc6\xbf\xcf\xdb\x43\x5c\xf6\x27\x0f\xb6\x75\x10\xea\xb9\xb2\xc9\xb3\xe2\x33\xd5\xae\x5e\x33\xcb\x4f\xde\x47\xc6\xf8\xb4\x1a\xd4\x50\xe5\x15\x7b\x20\x23\xb3\xb1\xbf\xdd\x37\xf7\x01\x7f\x6c\x51\x4e\x0b\x5e\x97\x74\xba\xe0\xa2\x37\x62\x8d\x0a\x4e\x2d\x2b\x4a\xcf\x12\x83\xd5\xb2\xea\x92\x73\x28\x76\x0d\x96\x8e\xe7\x70\x5c\xd8\x58\xcc\xf4\x82\xa0\x66\xaf\x78\xc5\x31\xc6\x68\xbb\x7d\x23\x9f\x32\x4f\xa3\xb6\x90\xe3\x2b\x7b\x1d\x1f\xb5\xfc\xaa\xc4\x56\x10\x59\xf6\x47\x89\xed\x61\xa6\xfa\x36\x72\x21\xea\x5f\xb9\x78\x3c\x55\x62\xbf\x33\x22\x9c\xba\x16\x57\x6c\xc9\xf3\xb6\x46\x9d\xe4\x20\x97\xee\x99\x0c\x3e\xef\xe0\xc6\x50\x7f\x9b\x0f\x21\x34\xd2\x27\x59\x16\xef\x41\x65\xe4\xdd\x61\x15\xdf\x63\xcc\xab\xcd\x9b\x74\xa4\xb1\x8f\xc8\x96\x06\x44\x01\xdb\x8e\x92\x34\x43\x18\x26\x70\x79\x09\x3f\x73\x78\x8e\xc7\x78\xb8\xca\xdc\x02\x44\x29\x67\x2d\xa6\x30\xe1\x80\x37\x19\x15\x68\xc4\x6b\xc3\x8e\x3a\xa8\x25\x1d\x89\xdb\xaa\x05\x19\x1c\x8f\xfa\xf5\xac\x94\xa0\x77\xb5\xd0\x62\x99\x31\x91\x9b\x72\x1d\xbb\x56\x86\x46\x88\x88\x6c\xc1\xa6\x4b\x7b\xb4\xaa\xf7\xd2\xde\xcc\x37\x56\xcb\x6a\x2f\xe5\xd7\x6b\x9e\x63\x88\x7e\x06\x65\x0d\x31\x5a\x2a\x3b\xe2\x9a\x6c\x4b\xb4\x65\x06\xf2\x70\x7c\x86\xc7\x45\x9a\x02\xeb\x1c\xad\x3d\x59\xd6\x14\xdf\xd2\xd7\x48\x36\x4b\xdc\xc8\x10\xb2\xc4\x6d\xf5\x6c\xec\x9c\xe2\x9d\x25\xf3\x5a\xb1\xfa\xfa\xb1\xea\x22\x62\x47\x75\x8b\x40\xcc\x06\xa9\xb5\xc5\x81\x2d\x21\xfb\x40\xee\xf6\x33\xf7\x27\xe4\x2d\xa1\x47\x9b\x9a\xdd\x03\x34\xeb\xc2\x93\xd6\x9b\x81\x90\xfc\x18\xe2\x6e\xfa\x28\x67\x84\xc4\x36\x59\xaf\xc7\x67\x7f\xfc\xd7\xbf\xf9\xe1\x0f\xff\xfc\xc3\x3f\xfd\xdb\x0f\x7f\xff\xfb\x3f\xfd\xe3\xdf\xfe\xe7\xbf\xff\xc7\x1f\xff\xf0\x77\x3f\xfc\xcb\xef\xff\xf4\xfb\x7f\xd8\x61\xf0\xd6\xf8\xc7\xb1\xd1\x27\xf5\x07\xa8\x9b\xb3\x21\xd0\x3b\x8b\xc1\x9f\xd9\x07\x0c\x74\x68\x9c\x36\x78\xe3\x88\xea\xed\x2b\xee\x89\x1e\x36\x9b\xee\xd6\x54\x62\x06\x73\x28\xa7\xb9\xbb\x3f\xe9\xe6\xc3\xfb\x53\x0b\xb6\x72\xf6\x83\xe9\x42\xb6\x3b\x74\xf8\xe6\x14\x82\x59\xcc\x5d\x8d\x40\xef\xac\xfc\xd8\x8e\x9d\x5b\x29\x88\x36\xd4\xd4\x23\x8e\xae\xf2\xb7\x20\xa8\x46\x88\xac\x30\x2f\x82\x70\x60\xc5\x7e\xc5\x55\x0b\x84\x0e\x4f\x5b\xaa\x0f\x6a\xe4\x53\x97\x6d\xef\x20\x4e\x27\x5b\x29\xda\xb7\x76\x77\xa4\x8a\x80\x1d\x5a\xbe\xfd\x12\xfa\x13\xd3\xf7\x68\xd4\xb6\x24\xbe\x9f\xf6\x3b\x98\xfb\xe2\xbe\xf5\xd8\x79\xa2\x07\x1d\xa1\x6f\xed\x43\x8d\x06\x5c\x02\x21\x69\x5c\x8b\x58\x9b\xd2\x24\xf3\x85\x67\xd3\xeb\xb8\x76\x34\xe7\xca\xdc\xc6\xe9\xdb\x8c\xe8\xa1\x74\x4d\x46\x55\xbe\xe2\xea\x43\xbd\x84\x63\x4c\xc7\xf3\x03\x05\x07\xdd\xc2\x87\xf1\x19\xbc\x2c\xf2\x95\xbe\xd9\x0b\x11\xd6\xad\x25\x25\x3e\xe5\xc2\x9a\x2c\x14\x55\xc4\xbe\x98\x8b\xc2\xf3\xb0\x9a\xb2\xa5\x5a\xf8\xc5\xc0\xe5\x52\x28\xb4\x3b\xb3\x46\x5f\x3f\x84\xf1\x0b\x51\x70\x29\xe1\x6c\x4c\x23\xea\xe9\xf7\xaa\xad\x03\xd6\x63\xab\xcd\x3a\xfc\xa3\x15\xb3\x1d\x1a\x78\x7e\x38\x30\xd0\x46\x06\x06\x73\xf9\xc3\xc9\xfc\xc1\x6c\xbe\x5e\x3b\x78\x96\xc6\x39\x37\x0e\x43\x5f\x85\x7c\xb8\x8f\x63\x5c\x6d\x1d\xca\xc1\xf0\x1b\xea\x26\xf8\xe4\x3e\x1a\x81\xa6\x6c\xeb\xe9\x3c\xc5\x06\x2e\x38\xe5\x6e\x5e\x8d\xb1\x5a\x54\xe2\xd1\x81\xa7\xcd\x6c\xc6\xeb\x18\x71\xf5\x0b\xde\xc1\x2f\x29\xa1\x38\x45\xb0\x7b\x1d\xdd\xc1\x0b\x6a\xdc\xed\xb4\xc7\xe6\x6c\x5f\x3c\xb9\x7d\x4d\xd5\x83\xf6\xdd\xe1\xbf\x71\x5b\x74\x88\xfd\xc1\xc4\xb9\xdd\x33\x9d\xdc\x45\x5c\x10\xd1\x62\x04\xb2\xbe\x37\xcf\xee\xb6\x41\xf2\xec\x77\x2f\x3a\x3c\xf6\x50\x6d\x20\x9b\x89\x77\x3a\xcd\x31\x1e\xc7\xc6\x2d\xbc\xe1\xaf\x9b\x89\x9c\xd6\x62\x62\xee\x04\xda\x3a\xe5\xba\xd9\xf8\x77\xae\xa0\x97\xdf\xd7\x06\x75\x74\x7d\xef\xb7\xd4\x40\xf8\x73\x39\xd7\x93\x4c\x0e\x4a\x14\x49\x06\x06\x1a\xba\x08\x7b\x27\x46\x3d\xb6\xaf\xd7\x9d\x0b\x4b\xd8\x1d\xf7\x18\x74\xec\x15\x40\xd8\xe5\x88\x2b\x80\x5a\xc8\x07\x0f\x1b\x75\xae\x3a\x4e\x1d\x61\xe9\x08\x47\xe2\xf3\x76\xe0\xea\x9f\xfd\x10\xa8\x14\xe5\x43\x6e\x00\x0a\x86\x20\x77\x8e\x16\x61\x23\xff\xc5\x9f\xff\xee\xa0\x96\x22\x07\xcf\x1b\x93\x7e\x75\xa2\x71\x01\xdd\x39\xe1\x69\x1d\x37\xad\x93\x2e\x0e\x42\x16\x7b\x2d\x68\x67\x1b\xd1\x5d\x08\xd7\x45\x6f\x1b\x2f\x4b\xdb\xb6\xd8\xaa\x0a\x3b\xf5\x66\x21\x4f\x3e\xbc\x83\x21\xa7\xdf\x2c\xe4\xc1\x71\x25\xe6\x87\x89\xeb\x4d\x0f\x00\xce\xba\xd4\x6d\x49\xbb\x73\x61\x10\x8d\xb4\x9d\x99\x1a\x1a\xc7\xcb\x8d\x20\xc9\xd6\xeb\x2e\xd9\xfb\x73\x74\x4b\x39\x27\x55\xf9\x5c\xce\x87\x53\x22\xbb\xd5\xc2\x7d\x87\x65\xf7\x9c\x39\x58\xca\x79\xfa\x4c\xef\x90\xfd\x55\xb2\x7d\x45\x1d\x56\x96\x07\x4e\xde\x12\x79\x28\x6e\xde\x96\x39\xf6\xc8\xcb\x76\x68\x5b\x4f\xf8\x88\x32\x47\x0c\xd5\x40\x39\xf9\x2d\x96\xef\x50\xe4\x5a\x3a\x7e\xd9\xbb\x5b\x9e\xb3\x62\xa5\x83\x3a\xe7\x98\xc3\xb5\xe5\x3c\xe6\x82\xc7\x06\x63\x1d\x98\x32\x43\xf4\x50\x75\x16\x52\x60\xc2\x96\xce\x82\x91\x3a\x1c\xc4\x7b\x20\xaf\x8a\xe3\x92\xe5\x3f\x82\x62\xda\xd9\xeb\x5c\x46\xa9\x3f\x94\x6d\xe9\xdc\x91\x41\x33\x3e\x4e\xc1\x1f\x98\x06\xc2\x11\x5a\xb0\x89\xb7\xa2\xb4\x46\x43\xd2\x3e\x20\xd9\x84\xc4\xe9\x29\xff\xe4\x14\x73\xdd\xcc\xd5\x98\x4c\xa7\xc1\x01\x5d\x1f\x99\xc2\x8b\xd2\x46\x70\x10\xa0\xc9\x43\x6a\x2b\xb0\xad\xc0\xa3\xac\x79\xf4\x57\x5a\x12\x23\x3a\x3c\xd1\x8e\xdd\x9e\xf3\xf8\xd2\x44\x41\x26\x65\x99\x03\xd8\x83\x1e\xd4\xed\x37\xf6\x18\x08\xd1\xcc\x7e\xe6\x35\x9d\x02\xd1\x4c\xd8\xd6\xd1\x07\x0e\x78\xed\x61\x42\x82\x08\x4d\x9c\x49\xd0\xf1\x24\xdd\x28\x6b\x6d\x3b\xf6\x9c\xf0\xea\x5d\x18\xae\xc8\xa9\x98\xa6\x37\xcd\x24\x17\x72\x11\x13\x77\x26\x3b\x2c\xa1\x54\x94\x3b\x2a\xdc\x9e\x8a\x63\x24\x3b\x53\x56\xd7\x82\xcb\x11\x3a\xf2\x58\x22\x69\xe2\x65\x2d\xbb\x48\x2e\xb7\x21\x6a\xbb\xb1\xff\xf0\x91\xc7\x15\xbc\x34\x7f\x67\xfd\x63\xcf\x11\x7c\x4a\x87\xc0\x3e\xe2\x29\x31\xac\xbb\xf6\xfd\x65\x4f\xf6\x30\xa6\x49\xb9\x77\xd8\xe7\x14\xcb\x92\x32\x6b\xf6\xdd\x09\xd5\x80\x5e\xef\x03\xb7\xd4\xe0\xb4\xff\xbb\x6f\xa9\x69\xb1\xdb\xb5\x75\x07\xcd\x26\x12\x1b\x5e\x9f\x52\xec\x37\x7c\x45\x8d\xbf\x19\xf9\x96\xab\xb7\xef\x05\xa7\x5c\x3d\x63\x0b\xcf\xfa\x9a\x5f\xee\x5a\x24\x6e\x36\x54\x73\xe6\xee\xa0\x09\x82\x5e\x53\xda\xb7\x54\x22\x6a\xd8\xa3\x76\xfd\x5a\xb2\x67\xfc\x90\x7d\xb2\x5b\x44\xb6\x5d\x43\xd6\xa9\xd9\x77\x9b\x97\x15\xf1\xde\x8a\xb1\xde\xed\x9d\x1c\x7c\x0f\x91\x0f\xbe\x13\x06\x27\x34\x54\xf4\x32\x64\x5a\xb8\x5a\x97\x01\x6a\xf4\xee\xaf\xc7\xdd\x09\x63\x6d\x8f\x3f\xdb\xed\x2f\x03\x28\x1f\x61\x0e\xc1\xb0\x3d\xd4\xda\x39\x3b\x3a\xd2\x5a\x3a\xc7\xd9\x38\x3d\x35\x11\xbd\xb7\xc6\x1c\x6b\x5a\xc9\xea\xb8\x71\x77\x4b\x13\xba\xc6\x95\x2f\x25\x64\x61\xf5\x1b\x58\x94\x37\xdf\x63\x5f\x75\x0f\xde\xb9\xff\xff\x2c\xaa\xdd\xa3\x88\x98\x76\x1d\x07\x4c\x2e\xa4\xa6\xd5\x99\xcf\xe5\x7c\xdb\xe2\x3a\xd7\xb8\xfe\x34\x66\xd7\xb1\x96\xf2\xa1\x8a\x01\x4b\xf2\x41\x33\xcb\x0d\xa4\x65\xce\x81\x4b\x3c\x36\xfc\xd7\x00\xf4\x1c\xa4\x2a\xef\x6d\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x4d\x8f\xe4\xb8\x95\xe0\x59\xfa\x15\xaf\x85\xee\x6a\x29\x37\x52\xd1\x5e\x60\x17\xde\x6c\xe4\x62\xab\xb2\xb2\x3f\xec\xae\xaa\x74\x55\x96\xfb\x50\x28\xb4\x19\x21\x46\x04\x9d\x0a\x49\x25\x52\x99\x19\x8e\x8d\xcb\x5e\xbc\xc0\x2e\x30\xc0\x9c\xe6\x30\x30\xe6\x34\xd7\xc1\x9c\xe7\xf7\xb8\x07\xfe\x17\x83\x47\x3e\x52\x54\x84\x14\x1f\xd5\xed\x39\x0c\x26\x01\x77\x85\x24\xf2\xf1\xf1\xbd\xc7\xc7\xf7\x45\x7a\x3c\x86\xab\x32\xe3\x30\xe7\x05\xaf\x99\xe2\x19\x4c\x56\x30\x61\x75\x59\xa4\xf0\xfc\x15\xbc\x7c\x75\x0b\xd7\xcf\xbf\xbd\x4d\xc3\xf1\x18\x5e\xf3\xba\x29\x0a\x51\xcc\x4d\x03\x78\x10\x79\x0e\xe5\x3d\xaf\x1f\x6a\xa1\x38\xa8\x85\x90\x30\x13\x39\xd7\x8d\x7f\xcb\x6b\x29\xca\xe2\x02\xd6\xeb\x94\x7e\x6f\x36\xde\x07\x78\xce\x14\xf7\xbf\xe2\xf3\x66\x13\x86\x15\x9b\xde\xb1\x39\xc7\x2f\x37\xe6\xe7\x4b\xb6\xd4\x5f\xc6\x63\xb8\xb5\x63\xc0\xb4\x2c\x14\x13\x85\x84\x25\x57\x8b\x32\x93\xa0\x4a\x58\xb2\x3b\x0e\xa2\xc8\xc4\xbd\xc8\x1a\x96\x03\x2f\xb2\xaa\x14\x85\x92\x30\xab\xcb\x25\x48\x5e\xdf\x8b\x29\x97\x23\x44\xa3\xe6\x1f\x1a\x2e\x15\xb0\x22\x83\x9a\xcb\xaa\x2c\x24\x07\xb5\xaa\xb8\x86\x84\x4d\x71\x46\xa5\xe4\x2d\x94\x11\x30\x09\x0f\x3c\xcf\xf1\x5f\x5e\x4c\xcb\x8c\xd7\x12\x01\x20\xbc\x8c\xd3\xf3\xac\xac\xa9\xa3\x86\x36\xd2\x2f\x18\x52\x6a\x06\x65\x53\x83\x6c\xaa\xaa\xac\x91\xd2\xaa\x66\x85\xc4\xdf\x88\x99\x60\xb9\xf8\x03\x53\xa2\x2c\x10\xda\xac\xac\x97\x4c\xc9\x34\x0c\xc5\x52\xb7\x88\xc3\x20\x9a\xac\x14\x97\x51\x18\x44\x38\x77\xfe\xa8\xf0\xa7\x46\x43\x14\xf3\xf1\xef\x65\x59\xe0\x8b\xd9\x52\xbf\x17\xa5\xf9\xef\x58\x94\x8d\x12\x39\x3e\x14\x5c\x8d\x17\x4a\x55\xf6\x77\x53\xeb\xd7\x52\xd5\xd3\xb2\xb8\xa7\x9f\xa2\x98\xcb\x28\x0c\x83\x68\x2e\xd4\xa2\x99\xa4\xd3\x72\x39\x9e\x97\xe7\x77\x42\x8d\xf1\x7f\x96\x16\x51\x18\xb0\x62\x55\x4d\x20\x9a\x97\xe5\x3c\xe7\xe9\xbc\xcc\x59\x31\x4f\xcb\x7a\x3e\xae\xea\x52\x95\x93\x66\x36\xd6\xf3\x1f\xdf\x15\xe5\x43\x31\xd6\xad\xa3\x30\xc8\x9a\x5a\x4f\xf2\x84\xae\x6d\x97\x28\x0c\xf8\xb2\x52\xa7\x8c\x4b\xed\xa3\x30\x98\x09\x9e\x67\x4b\x26\xef\x4e\xe8\xed\xf5\x89\xc2\x40\xaa\xba\x99\xaa\x13\xba\xdb\x0e\x51\x18\x28\xb1\xe4\x52\xb1\x65\x75\x42\x77\xaf\x4f\x14\x06\x0f\x35\xab\x2a\x5e\xcb\x13\x00\xb4\x5d\x76\x59\x5a\x8b\x3c\x67\xe3\x65\xf3\x18\x75\xbf\x54\x77\xf3\x31\xaf\xeb\xb2\xd6\x92\xb6\x67\x20\x27\x79\xfa\x8d\x15\xbf\x3d\x1d\xf4\x0f\x44\x64\xbd\x3e\x07\x31\x03\xfe\x01\xd2\xab\xb2\x98\x89\x79\x7a\xeb\x56\x42\xc4\xf2\x3c\x82\xa8\x60\x4a\x46\xb0\xd9\x74\x71\xc3\xb7\xe7\xa2\xd4\xff\xa6\x73\x94\x70\x04\xc5\x8b\x6c\xb3\x39\x0a\xea\xbc\xae\xa6\x16\xea\x0e\x9e\xfa\xe3\xe0\x97\xf1\x92\x2b\x96\x31\xc5\xb6\x07\x3d\x7a\x48\x84\xdf\xae\xf8\x81\xf5\xe5\x1a\x58\x74\xbc\xb1\x70\xed\x9e\x00\x00\x9b\x47\x47\x91\xa5\x25\x36\xfe\x3a\x61\x08\x6c\xde\xc1\x31\x09\xc3\xf0\x9e\xd5\x10\x87\xc1\x0f\x70\x09\xb3\xa5\x4a\xdf\x54\xb5\x28\x94\x79\xd6\x0a\x2c\xbd\x2a\x97\x15\xab\xb9\x79\x45\xda\x27\x7d\xaa\x4a\x61\xde\x74\xa6\x99\xbe\xe4\x0f\x6f\x78\x7d\xcf\x6b\xf3\xd1\x68\xb3\xf4\x65\x59\x5d\xe5\xa5\x6c\xdf\xa6\x57\x65\xb5\x32\x0f\x46\x78\xd3\xef\x6b\x56\x85\xc1\x78\x0c\xc4\x4f\x2b\x86\x46\xc7\x63\x53\xad\x92\xd2\xa7\x85\xee\xd7\x2a\x99\xf4\x39\xfd\xc4\xd7\xa4\x3e\xd2\x6b\xfc\x17\x5f\xd8\x25\x9d\xbe\xd1\x3f\xf0\x95\xb7\x4c\xd3\x5b\xfb\x1b\x3f\xb4\xcb\x0f\x5b\x8b\x62\xfe\x5b\x96\x37\x7a\xde\x9e\x5e\x49\xbf\xc2\xdf\x2f\x98\xbc\x0b\x93\x30\x1c\x9f\x1d\xf5\x07\xd7\x76\x4f\x02\xfb\xea\xf0\xdf\x58\xef\xa0\xdf\x16\xc0\x70\xbf\xb9\xe7\xf5\x08\x84\xfa\x5c\x42\x23\xf9\xac\xc9\xf5\x36\x35\x6b\x8a\x29\x52\x41\x82\x5a\x30\x05\x05\xc7\x5d\xaa\x84\xb2\xd2\xb6\x01\x94\xd8\xb7\xe2\xf5\xb9\xdd\x06\x10\xe0\x84\x49\x21\x53\xf8\xaa\xac\x81\x3f\xb2\x65\x95\xf3\x11\xac\xca\x06\x96\x62\xbe\x50\x50\x31\x89\x5b\xa4\x87\xb0\x2a\x81\xb9\x81\xcc\x38\x55\x5d\x66\xcd\x94\x4b\x04\xc7\x0a\x2d\x01\xe9\x37\xac\xc8\x72\xc4\xf1\x41\xa8\x05\x70\x36\x5d\xd0\x4e\x0f\xb1\x1d\x3d\x81\x07\x51\xf3\x0c\x9a\x0a\x91\x64\x20\x2b\x3e\x15\x33\x31\x85\x8a\xa9\x45\x0a\xf1\xb7\x0a\x01\x0a\x09\x55\x5d\x4e\xd8\x24\x5f\x01\x83\xa5\x90\xca\x58\x09\x90\x71\x29\xe6\x05\x76\x15\xc5\x7d\x79\x87\xdb\x3d\x07\x14\x36\x31\xe5\xce\xaa\xd0\x28\x72\x84\xd3\xce\xc0\xc8\x00\x88\x96\x92\x69\x12\x8e\xc7\x8e\xba\xd3\x5c\xf0\x42\x75\xa9\xab\x4a\x98\x96\x79\xce\xa7\xca\x33\x50\xf2\x15\x4c\xcb\xc2\x80\xe3\x99\x67\xae\x88\x02\x27\x84\x00\xa5\x28\xe6\xb9\x31\x4c\x0c\xad\x04\x52\x78\xc9\x11\x0f\x1f\x5f\x51\x28\x5e\xcf\xd8\x94\x0f\x71\x02\x81\xb9\xc1\xfa\x8d\xa4\x06\x07\x6b\xad\x12\x6d\x2c\xe0\x02\xbc\xa2\xf9\x4c\xcb\xe5\x44\x14\x9a\x4e\x4b\x42\xd1\x63\xec\x88\x4c\x29\xd5\xd4\x05\x08\x85\x74\x45\x04\xa7\x2c\xcf\x79\x8d\x16\x13\xb3\xc8\xa6\xa1\x9e\xce\x0e\x41\xd7\x61\xf0\xb6\x70\xf3\xe3\xd9\x7a\x9d\xda\x1e\xc6\x04\x24\x4d\xb0\x5e\xd7\xac\x98\x73\xf8\x54\xc0\xc5\x25\xb8\x36\x2f\x0c\xcb\x50\x8f\xad\xd7\x9f\x0a\xea\x63\x47\x01\x00\x37\xd5\xd4\xbe\x0c\xd7\x6b\xa3\x5c\x8d\x75\x69\x5f\xcb\xc3\x43\xa0\x00\x43\xec\x4d\x22\x01\x6f\xd0\x78\xaa\x1e\x81\xac\x34\xdc\x1a\xf0\xdf\x11\x0a\xcc\xd9\x7a\xfd\x75\x89\x88\xc1\xa7\x22\x7d\x6d\x4c\xd0\xdb\x55\x65\x27\x98\x40\xbc\xd5\xc2\x18\xa6\x5e\x93\x91\x51\x70\x09\xac\xc3\xc0\xda\xad\xfa\x1d\x22\xca\xd3\x9e\x99\x23\x32\x38\x78\x12\x06\xb8\x59\xd5\x35\x7c\x72\x09\x85\xc8\x11\x42\x40\xfc\x2a\x44\xae\x81\x84\xc1\x26\xb4\xef\x2c\xf4\xf4\x20\x4e\xc9\x08\xe1\x85\x1b\x47\x4e\x24\xe6\x0b\x76\xe7\x91\x27\x5c\xaf\xf5\x42\xfe\x54\x71\x44\x34\xdd\x60\xe3\x73\xf0\xa9\xfc\xa9\xe2\x43\x84\x46\x58\x7d\x33\x93\x48\x74\xc5\x7b\xc5\x24\xd9\x65\x37\xac\xdd\xe4\x90\x7f\xfd\x5c\xb2\x8e\x81\x5b\x51\xeb\x4d\x02\xb1\x25\x86\xff\x5a\x53\xcc\x63\x47\x50\xf3\x0f\x38\x11\x82\x90\xc6\x87\xb8\x1d\x06\xc1\xbd\xe3\x9d\xf4\x79\x87\xa8\x69\x54\x92\x30\xe8\xe1\xda\x2e\xdb\x90\x6f\xf6\xed\xbd\x61\x47\x80\x62\xdd\xee\xcd\x3e\x6f\x70\x73\x7c\x9a\xe7\xd7\x8f\x53\x5e\x29\xbd\x4f\x49\xa3\x62\x1d\xa5\xf4\x0e\x85\x2e\x0b\xad\x4d\xfb\x41\x82\x66\x23\x43\x28\x9e\x4d\xe0\x48\xfd\x42\x64\x59\xce\x1f\x58\x6d\xbc\xc0\xb7\xd2\xfa\x85\xe8\x04\x55\x55\xbe\x42\x15\x83\x6a\x53\x21\xf0\xa5\x6b\xad\xbd\x2e\x7e\xcf\xeb\x95\x63\x1b\xae\x17\xd4\x20\xe4\xb6\x69\x78\xaf\x2a\xdc\x35\x58\x9e\xaf\x46\xae\x9d\x84\x29\x2b\x60\xc2\xf5\x5e\xc3\x33\xec\x36\x59\x41\x81\x64\x57\x25\xbe\xe7\x8f\xd3\xbc\xc9\x78\x66\xbc\xc0\x09\x47\x14\x70\xce\x15\xcf\xd2\x1d\x6a\xc4\x2d\x4e\x23\x88\xde\x28\xa6\x1a\x19\x8d\x20\xba\x11\xc5\x3c\x4a\xdc\xba\x3f\x73\x04\x49\x06\xfb\x3b\x0c\x3d\xaa\x8c\x5a\x6c\xd2\x34\x95\xda\x2c\xd0\xc2\x23\x0a\x7a\x7d\x71\x09\x4b\x56\xbd\x33\x9f\xde\x1b\xf2\xaf\x37\x28\x5e\xdb\x0b\xa6\x67\xb5\x04\x41\x10\x79\x62\x14\x5d\xc0\x7a\x33\x0a\x03\xdf\x8c\xdc\x84\x61\x80\x7b\xfd\x0f\x88\x0a\x82\x31\x20\x1d\x5a\x38\x92\x98\xc1\x0f\x23\x28\xef\xf0\xb3\x45\xec\x1d\x7f\x7c\xff\x25\x7c\x52\xde\x21\xb6\x41\x50\xb1\x42\x4c\xe3\xd6\xc2\x9b\xc5\xd1\xb5\x05\x61\xe7\x0d\x9f\x7f\x26\x3f\x87\xac\xe4\x12\x8a\x52\x01\x7f\x14\x52\x7d\x09\x92\x73\x9f\xf1\xce\xa7\xd4\x26\x3d\x22\x95\x24\x24\xcf\x19\xcf\xb9\xe2\xb1\xc5\x40\x7f\x6b\x27\x20\x8a\x69\x8b\xbe\x6d\x03\xc7\x13\x4a\xcc\x34\x88\xcb\x4b\xe8\x90\x4c\x43\x08\x82\x5e\x55\x0a\x97\x1e\xe6\x71\x6f\x13\xc4\x3d\xd8\x6c\x93\xdc\x2c\xbb\xef\xd8\x84\xe7\x3c\x6b\xa5\xc1\x84\x50\xe6\x5c\x59\xd9\x45\x79\x77\xd4\xd3\x22\xfc\xb0\xe0\x85\xfb\x5a\x7a\xe2\x4a\xc0\x8c\xd4\x8d\xcc\x2a\xa3\x85\xd0\x98\xc6\x60\xe2\x32\xcc\x04\x77\xc4\x14\x8d\x9a\x5a\x4c\xb5\x99\xd5\x4e\x03\x1e\x16\x62\xba\xd0\x6b\x48\xf2\xa2\x0f\x05\xda\xc9\xa9\xb7\xb5\x63\xca\x9a\xf6\xf1\xdd\x59\xe1\x22\x89\x8d\x00\x8f\x76\xb5\x70\x8f\x62\x0e\x87\xe6\xf5\xd1\xba\x69\x07\xa9\x11\xcd\x53\x53\xbc\xe6\x53\x2e\xee\x51\x35\x71\x33\xc5\x72\xd6\x99\x77\x0a\x6f\x38\x77\x60\x3c\x28\xfa\x83\x35\x44\x09\xe1\xeb\x47\x44\x14\x25\x32\xe3\x8a\x89\x5c\xa2\x9d\x6c\x97\x13\x02\xb1\xc6\x2e\xcb\x85\x5a\xa5\xfb\x54\x48\x67\xee\xf1\xf2\x27\x50\xf4\x3f\xf5\xcc\x7f\x1c\x3d\xd3\xe9\x36\x82\x93\xd4\xce\xf1\x01\x8a\x63\x5d\xcf\xaf\x5f\xdf\x5c\xe1\x3c\x79\x7d\xb2\xef\x89\x66\x9c\xd7\x1d\xc3\xb5\xb2\x35\x06\x1c\x7f\x80\xdd\x33\x91\xb3\x49\xce\x8d\xdb\x30\x7f\x7d\x73\x05\x03\xce\x00\x2d\xa7\x2e\x64\xe7\x21\xca\x56\x37\x8c\xa0\xd4\xb6\x83\xc4\xf5\xd0\x89\xc5\x68\xf1\xe6\xb5\x31\x2d\x92\xa1\x81\x90\x5d\xd2\x6b\x28\x51\x26\xde\xbd\x1f\x86\x84\xd2\xdb\xf7\xf5\x19\x9f\x95\x35\x8f\x11\xdb\x17\x14\x53\xba\x2d\xc9\xfa\x4c\x46\xc8\xb5\xad\x71\x2e\xd1\x70\xe2\x45\x16\x77\x5e\xbb\xf9\xa4\x69\x9a\xe8\x40\xc7\x7a\x0d\xb7\xe5\x77\xe5\x03\xaf\x5b\x41\x44\x52\x21\x73\xad\x69\xf8\x04\x31\xc2\x8f\xbc\x5e\xa3\x9b\x74\x50\x7a\x17\xc6\x0d\xf7\x24\xee\x02\xba\xb3\x72\x11\x9a\x18\xe5\xd9\x51\xbe\x4f\x48\xd1\x12\x09\x9e\xeb\x40\x39\x4e\xdf\x6b\x41\xc6\xb1\x6e\x70\x5d\xf4\x36\x20\x57\x07\x5b\x74\x08\x91\xa6\x29\x76\x43\xd2\x6d\xc9\x3e\xea\xde\x76\xbe\xdb\x9e\xb3\xb3\xcd\xfb\xd9\xed\xec\x7c\xb3\xc9\x79\x70\x7e\x76\x6f\x75\x97\xc6\x00\x5b\x44\xa6\x68\x88\x67\xce\x93\x93\x45\x61\x0a\x54\xb4\x1e\x8a\xaa\x6c\x67\x7b\xfc\x44\x0f\x62\xaa\x97\x5a\x2c\xe1\xac\x1d\x2a\x69\xc1\x1f\xf0\x7e\xd1\x39\xfa\x79\xdd\xdf\x1f\xd0\x43\xaa\x3c\x07\x6a\x97\x90\x7a\x12\x5a\x96\x7c\x8f\xea\x44\x37\xb8\xfa\x48\x0f\x98\x08\x6c\x04\xfe\x30\x75\xc7\x63\xd8\xb7\x36\x40\xa0\x2e\x74\x22\xa1\x03\xc4\xa9\xe9\x40\x2d\xbe\x42\xf6\xe8\x20\x11\x26\x74\x78\xad\xa4\x89\x21\x91\xfe\xb4\xca\xc1\x01\x76\xae\x2e\x46\x72\x30\x50\x55\x9f\x67\xe5\x92\x89\x62\x5f\xe3\x14\x6e\x6a\xb1\x64\xb5\xc8\x57\x36\xb6\xe5\x07\xc2\x8c\x3a\xde\x37\x8f\xf8\x87\x5d\xd9\xc0\xb9\xbc\xe6\x1f\x5a\x59\xd4\x3e\xb7\xf7\xd4\x8d\x7a\x68\x2f\x9b\xfa\x1c\xe3\x65\x3b\x4e\x7e\xd8\xc3\xa6\xeb\xe2\x68\x36\xed\xd5\x50\xbd\x7c\x32\x3d\x6c\x93\x21\x46\x1d\x66\x01\x0d\xa1\x19\xb6\x87\xad\x55\xbe\x3a\x8a\x4f\x7b\x27\xd2\xc7\xa8\xbe\x30\xc8\x3e\x4e\xc9\x0a\x59\x65\x7b\x1d\xb1\x8e\x3c\x66\xc9\xaa\x8f\x5b\xdf\xf0\x1c\x63\xea\xa1\x11\xb4\xde\x5d\xb4\x5f\xff\x2c\x33\xb0\x39\x9c\xf4\xc5\xf3\x64\xbb\x01\xe2\x8b\x5a\xf4\x6e\x04\xf7\xad\xb9\xb7\x74\x76\xea\x7d\x27\xfe\xa2\x53\xd1\x1c\xee\xf8\x4a\xb3\x3b\x43\x83\x76\x52\xaa\x05\xd2\xd8\x8e\x42\x49\x5c\x88\xef\x12\xf2\x3d\xb0\x69\x9e\x43\x8e\xfc\x22\x28\x8c\x3c\x2e\x1d\x6b\xbd\x62\x45\x59\x88\x29\xcb\xbf\xe1\x2c\xe3\xf5\xaf\xf9\xca\x3a\x26\x38\x90\x2c\x29\x02\xac\xc8\xcf\xb3\x20\xa6\x53\x6e\x03\x1f\x5c\xa8\x05\xaf\x69\x64\xfc\x8e\xa4\xb8\x74\x73\xfd\x5e\xa8\x85\x4e\x42\x20\x89\x46\x7a\xae\xef\xbe\x78\x9f\x1c\x6c\x38\x80\x5d\x7c\x97\xb4\x10\xc8\xe4\x27\xf6\x4d\xd5\xa3\xde\x81\xad\x01\xb8\xff\x4f\xf3\xd1\x84\x99\x4f\x36\x2a\x5f\xf2\x07\xaf\xb7\x19\x5e\xa7\x1c\x28\x6e\x04\x13\x36\xbd\x43\xf6\xac\xec\x9a\x31\xf1\x79\x9c\x6b\xc1\x75\xba\x23\x85\x6f\x15\xf2\x91\x22\xfd\x24\xae\x62\x22\xd0\x61\xb3\x2c\xa0\x40\xb6\x2a\x21\x13\x2c\x37\xd1\xee\x9c\x29\x5e\xc3\x14\x53\x51\xe8\x81\x73\x1f\xa6\x11\xd0\x0e\x76\x31\x7e\x36\xbb\x67\x6a\xf0\xbd\x2a\x8b\x62\x8f\x65\x6a\x1a\x59\xcb\x34\x1e\x30\x4d\xfd\x25\x87\x06\xc2\x76\xa0\x35\xf0\xde\x56\x77\x73\x5c\x69\x36\xde\xda\xad\xb0\x08\x76\x5d\x1a\x3f\xba\xda\xea\xc0\xe0\x9e\xd5\xce\xfb\xf2\x54\xc7\xae\x1f\x1a\x06\xb8\x5e\xfa\x9a\x5e\xee\xda\x91\x44\x25\x2d\x8e\x48\x18\x72\x33\xcb\xba\x83\x06\x72\x5b\xcf\x21\x36\x0e\x21\x44\x9f\xc9\xf4\x33\x19\xb5\x93\xf3\x5b\x63\xcb\x04\xfd\x26\x0f\x98\x68\x61\x38\x7c\xa2\x7d\xb6\x67\x6b\x9c\x3e\xe7\x87\x8c\xd3\x03\x1a\xce\xc4\xe3\x82\xd6\x78\xc7\xc7\xc4\xd1\x2b\xd6\x8e\xa7\x66\x04\x59\xb2\xed\x2f\xfb\xc3\x2d\x32\xdb\x49\x1e\xb4\xe5\xe1\x9c\x40\x39\x9c\x6d\xdf\x0b\x3f\x31\xe2\x7d\x1f\xb5\xe3\x05\x1b\xab\x88\x51\x01\xe3\xdc\x81\x56\xdb\x4f\x37\x6d\xf6\xec\x99\xcf\xf9\x31\x7b\xe6\xfe\x5d\xf0\x58\xd3\x86\xf6\xa7\x81\x3d\xd3\x28\x0c\x5a\xd1\xcf\xf9\x89\x7b\x26\x4e\xe6\xb5\x46\xe6\xc8\x4d\x13\x9b\x3a\x03\x07\xb7\xf2\x93\xb6\xcd\x2a\x5f\xf5\xed\x9b\x3e\xdb\x7e\xba\xa9\x33\x6c\x91\x5e\x17\x47\x58\xa4\x87\x19\xe2\x19\xa6\x7b\x38\xbc\xd7\x22\xed\x70\x6d\xdf\x3c\xfa\x0d\x1d\x9a\xe2\x71\x2c\x3b\x35\xef\xb3\xdf\x22\x25\x2c\xf4\x4e\x2d\x6f\x4b\xdf\xc8\x31\x2b\xa5\x6f\x97\xa0\x71\x70\x9d\x18\x41\xdd\x03\x25\xbe\xe3\x2b\x09\xef\xde\xdb\xb8\xe0\x01\x78\x47\xe5\xcd\x96\x19\x9c\x1d\x32\xb0\xf4\xbe\x51\x31\x51\xb7\x83\x87\x81\x8d\x12\xde\xb5\x66\x97\x46\x6f\x4d\xc1\xb3\x7b\x1b\x21\x9c\xaa\xc7\x54\xd3\x24\xbe\x4b\x52\x8a\x86\x26\x5f\x82\x8d\x14\x06\x06\xb0\x0b\x97\xe8\x47\x63\xe4\xb8\xe8\x18\x2a\x4f\x84\xa9\xbf\x75\x2c\xba\xb3\x65\x86\x51\x37\x3b\x81\x5f\x95\xa2\x88\xcf\x96\xd9\xa8\x7d\x75\x83\x7d\x62\xdd\x13\x63\x2e\x89\x05\x47\x94\x41\x8b\x87\x42\x6e\x86\x93\xc7\x06\xd4\xbe\xb9\xbd\xbd\x21\x1f\xc4\xbe\x3b\xfc\x37\x0e\x43\x9d\xcd\x37\x54\x2e\xb4\x78\xc1\x25\x44\xac\xaa\x72\x31\xd5\xf5\x2b\xba\x24\xf0\x4b\x98\x2e\x58\x2d\xb9\xba\x6c\xd4\xec\xfc\x97\x91\x8b\xc3\xe1\xa8\x14\x55\xa0\xa4\x3d\x0a\x16\x79\xd0\x46\xd1\x1e\x8e\xcf\x21\xb0\xb2\x80\xaa\xe6\x19\x9f\x89\x82\x67\xba\xf4\x42\xd2\x9a\xdb\x1a\xe6\x60\x54\xae\x5b\xf9\xd3\x8d\xca\xf9\x35\x21\xd6\xce\x11\x33\x48\x35\x7c\xed\x12\x78\x7a\x6b\x2b\x42\x84\xb2\xf3\xee\xfd\x30\x74\xcd\xff\xbe\xcf\x14\xaa\x33\x63\xa0\xcd\x2b\x3b\x91\xba\xfe\x4e\xd7\xa8\xc9\x8d\xba\xa9\x63\xee\x3d\x0c\x77\x79\x3a\x53\xbc\x8e\xb7\xbf\xa8\xab\x96\xb5\xb1\xc7\xe6\x44\x03\xda\x9d\xe5\x51\x71\x42\x0a\x20\xe9\x98\xe0\x12\x09\xb3\x6c\x1e\xd1\xf4\x7a\x5d\x36\x88\x43\x12\x7a\x96\x04\xa5\x39\x2e\x2e\x07\xc9\xec\x9a\x4e\xb0\xa0\xa4\x98\x23\x40\xea\x96\x3e\x33\xaf\x28\x08\xbe\xb4\xfd\x74\x34\x9b\x9a\x63\xe9\xef\x04\xfe\x37\xdc\x96\x6f\xb1\xb4\x71\xb3\x89\x92\xf4\x86\xa9\x45\xa7\x0d\xbe\xb8\xe5\xcb\x0a\x6d\x6d\xdd\xc2\x8a\xd3\x40\xa1\x98\x0e\x43\x76\xe3\x90\x84\x51\x4f\x30\x92\xec\x39\x9c\x9e\x37\xa4\x4e\xc3\xb8\xed\xc1\x34\x34\x1c\xc5\x86\x5f\x9b\x6c\x9a\xdd\x86\xcd\xe7\xbe\x90\x64\xa0\x13\x0c\x6d\xc8\xce\xff\x49\x4a\x63\x49\x46\x95\x2f\x34\x26\x6d\xa7\xbd\x11\x63\x16\xd8\x04\x9c\x1d\xf1\x7b\xfc\x5e\x8f\xd0\xa3\xc9\xf8\x8c\x35\xb9\xc2\xdd\xce\x08\x08\xae\x48\x1d\xb0\x2c\x67\xb0\xad\x0b\x46\xc0\x60\x52\x66\xda\xa9\x44\xdd\x60\x5c\x02\x74\x2d\x23\x3d\x4e\xe4\xbc\xd1\x7b\xd4\xb2\x08\x4a\xbf\x4f\x35\x76\x71\x62\x7c\x1e\x06\x52\x27\xc5\x01\xe9\x81\xa0\xfe\xdb\x17\x5f\xa4\xf0\x2d\x25\xd0\xb0\xa5\x1f\x69\x35\xeb\x86\xd7\xba\xe6\x1a\x5b\x54\x75\x79\x2f\xd0\x5d\x5e\xe8\x2f\x58\x4f\x90\xe7\x98\xa5\xd7\xd8\x9a\xbc\x25\xb6\x6b\x6d\x32\x1f\x34\x42\xf1\xa0\xe3\x2c\xd2\x17\xac\x96\x0b\xa6\x6b\xc5\x2c\xfe\x4b\xf3\x0a\x13\xfd\xb2\x99\x4e\x39\xcf\xa4\xf1\xcf\x7e\xf5\xe6\xd5\x4b\x2a\xdd\xce\x6c\x9d\xb5\x75\xf0\xf4\x5c\x1d\x3a\x98\x43\x1d\x9e\x96\xa9\x0b\xc0\xca\xf9\x7a\x64\xdd\x46\x37\xb3\xf6\x63\x07\x1a\x88\x42\x2a\xce\x32\xa2\xd9\x08\x9a\x22\xe7\x52\xa2\x3f\x2f\xa8\xe0\x0e\x99\x86\x68\x69\xa4\xa5\x84\xb2\xd6\x89\x73\xc4\xce\x52\x1b\x39\x8d\x78\xa8\x96\x44\x10\xff\xe2\xf1\x31\x21\xa5\xeb\x6b\x9c\x3e\xc3\xc6\x95\xac\x8c\xe0\xc1\x54\xda\x75\xc5\x4a\xdb\xa0\x28\x25\x23\xf8\x01\x97\xb3\x4f\x62\xa3\xce\x30\xed\x59\xf1\x7a\xad\xa5\xe2\x02\x69\x63\x05\x04\x2d\x1b\x31\xb3\xd4\x47\x86\x98\x8d\x1b\x9b\xc4\x5d\x5e\xb5\xfb\xb6\x98\x01\x7e\x7a\xa6\x87\xa4\xae\xd7\x26\xa2\xeb\x00\xd9\x7e\xc8\xbe\x38\xf9\xd2\x8e\x80\xcd\x2e\xbd\x3d\x1c\xd1\x86\x4b\x07\xce\x06\x25\x82\x87\xd4\x88\x61\x9c\xa4\x6f\xb8\x8a\x23\x52\xac\xe7\xb7\xab\x8a\x47\x23\x7f\x0b\x35\x13\x58\x58\xa1\xf5\xf1\xef\xaa\x1b\x2b\xd7\xed\x3c\xd0\x8a\xf1\x4c\x18\x0b\x83\x5a\xca\x58\x13\x36\xd8\xc6\xe5\x6e\xd4\xd3\x32\xfd\x9a\xab\xf8\xce\xa6\x27\x37\x61\xa0\x99\x7f\x61\x6a\x63\x53\x23\x5e\xdf\xa2\x29\x5a\xb0\xdc\xdb\x74\x34\xee\x72\xba\x07\x6b\x4f\x6c\x0d\xe2\x4f\x9e\x80\x9c\x12\x44\x7c\x1d\x27\xf0\x3f\xfd\x51\x5e\xfd\x5a\x63\xad\xc7\xbf\xdc\x6e\x4a\xb4\xd5\x72\x43\x93\xc2\x86\x89\x7b\x19\x23\x43\x12\x54\x71\xad\x68\x1a\x85\x5b\xc7\x93\x66\x06\xef\xde\x63\x45\x70\x42\xcb\x6b\x1d\x6a\xf3\xf0\x01\x7c\x29\x73\xc1\x7a\x2b\x8a\x6f\x0b\x62\x3e\x42\x18\xc1\x93\x87\xe4\xcb\xed\x60\xbe\x31\x8c\xa4\xf8\x03\x87\x4b\xf8\xe5\x2f\xfe\xc7\x7f\x37\x52\x96\xf3\x02\xfb\xe0\x0c\xf5\x37\x6c\x1a\x20\x1a\x97\x30\x69\x66\xef\x2e\xf0\xe5\x7b\xda\x59\x49\x3d\x63\x79\x8b\x26\xed\x2c\x8e\xdc\x6a\xc3\x49\xe9\x8c\xf3\x05\xc6\xe1\x70\x7d\x56\x68\x61\x41\x51\x16\xe7\x28\x7a\xce\x77\xc0\x86\xd1\x08\x81\x53\x36\x99\xa0\x52\x85\xf2\x4b\xfe\x10\x3f\x98\xa5\xa3\x69\xa4\xd5\xb6\x3f\x77\x5b\xdf\xb0\x0e\x03\xdd\x0a\x9f\x51\xa5\xfd\x0e\x47\xb9\x20\x9d\xfd\x3b\xda\x41\x90\x69\xd4\x8a\x29\x21\x67\x02\x0f\xb2\x2c\xb8\x53\xc0\x5a\x77\xb7\xdc\xf3\xf2\x3e\x12\x84\x3e\x73\x62\x0f\xde\x1c\x53\x58\x9e\x9a\xac\x98\x37\xa8\x43\x55\xa3\x85\x87\x25\xec\x50\x38\x52\x18\x58\x75\x0f\xe0\x97\x1d\x38\x2f\xc0\xca\x48\xbc\x68\x81\x26\x9e\x9a\x8d\x13\xe8\x16\xf0\x2d\xd2\x76\x84\x81\xde\xed\xca\xc3\x97\xb4\xbc\x3a\x20\x08\xa9\xb0\x93\x08\xd8\x0e\x6a\x1c\x34\x83\xbc\x98\xd9\x01\x3b\xc8\xc5\x41\xf6\x1a\x1c\xdb\x7e\xb5\xc6\xbe\x3f\xd3\xa3\x13\xbf\xe6\xe8\x11\xf6\x41\xfd\x78\x4e\xdb\x9b\xef\x32\xdb\x71\x6e\x58\xcd\x0b\x45\x6e\xa8\x93\x53\x5d\x16\x87\x7b\x0c\x62\x65\xdf\x6a\xc8\x28\xc1\x87\x12\x09\x81\x17\x15\xd9\x3b\xad\x5e\x37\x1b\xce\x68\x0f\xd2\x4d\x86\x5d\xec\x20\xe3\x33\x5e\x43\x9d\xa2\x62\x4f\xaf\x30\xe2\x8a\x0a\x48\x6b\x0c\x74\xbf\x5b\x8f\x7b\x6b\xae\x04\x19\x95\x3b\xda\x5d\xb8\xe0\x5d\xc6\x90\x4e\x13\xbc\xe6\x2c\x7b\x9a\xe7\xb1\x01\x7e\x5c\xc5\xa5\x3d\x62\x30\xc3\x3d\x71\x04\x11\x69\x82\x1a\xf7\x77\x6b\x63\xe1\xcc\x2c\x39\x23\x52\xe6\x5b\x8a\xe8\x0b\x3d\xb7\xa0\xb1\x4a\x0d\x7d\xaf\x8b\x4b\x70\x47\x6a\x5a\x75\x47\xa6\xa5\x6e\x1e\x3c\xcd\xf3\xf2\xe1\x86\xd5\x4a\xb0\x1c\x03\x78\xaa\x6e\xc8\x0e\x7d\x2e\xe4\x94\xd5\xd9\xdb\x42\x1f\x7f\xba\x68\xbf\xd8\x52\x14\x9c\xfa\x25\xf8\x03\xee\xa8\x54\x4c\x92\xee\x28\xd5\x7e\xb5\x3a\xac\x58\x7b\x55\x2b\xa1\xd1\x21\xa6\x5b\xb0\xeb\x1e\xb2\x12\xf5\x3e\x4a\xe7\x1a\x82\x04\xde\x6e\xf6\x8c\x65\x24\x0e\xf4\x0d\x11\x68\xd1\x72\x01\x02\x74\x62\x6f\x58\xcd\x96\xd2\x7a\x48\xbf\x65\xb5\x8c\x6b\xe4\x21\x1e\x31\x69\xbf\x63\x38\xe1\x43\xc3\xeb\x55\xdb\xbc\x4e\xdf\xbe\xfe\x2e\xfd\x0d\xbe\x8c\x6d\x07\xaf\x49\xe8\xbb\x4d\xa6\xca\xf6\xe2\xb2\x95\x5a\x7d\x1a\x84\x7c\x26\x5d\xbb\x53\xd8\x66\xe9\x77\xa5\xb1\xe5\x21\x42\x6a\x44\xa6\x0d\x86\x74\x35\x94\xf4\x6b\x5e\xe8\x41\x1d\x37\xd1\xa1\xea\x8f\x24\xef\x47\xe1\x55\xc1\xcb\xd9\x0e\x1e\xfc\xc3\x2e\x1e\x7a\x5a\x3f\x05\x11\xb7\xac\x9e\xd4\xfc\x43\x9b\x79\x27\x3f\x49\x07\xad\x6d\xd3\x36\x18\xd9\xe3\x83\xf5\x6a\xcc\xa1\x9c\xab\xd1\x8f\xd2\x3a\x24\x6e\x5f\x67\x52\xeb\xcf\x6d\x07\xc4\xb8\x63\xf5\x09\xf9\xd4\x1e\x04\xfb\x74\x5f\xaf\xf9\x3d\x94\x62\x75\x26\xd2\x90\xa2\x78\xb1\xa3\x26\xb6\x95\x84\xd3\x05\x6f\x25\xbf\x41\x05\x83\xfa\x52\xfa\xea\xe3\xad\xe4\xd7\x45\xb3\x7c\xd9\x2c\x27\xbc\x96\x17\xed\x87\xeb\xa5\x50\x6f\x8b\xaa\xac\x1a\xf4\xc2\x33\xa7\x56\x36\x61\x47\x9f\xb6\xb8\x59\x74\x5c\xdd\x7c\x1a\x6b\x54\xd3\x17\x5c\x4a\x36\xe7\xc9\xbe\x2a\x0c\x2b\x06\x3f\x8c\x48\x5b\x39\x73\x52\x5b\x52\x5e\x2b\x3f\x25\xec\xca\x2c\x25\x19\x03\x7d\x61\x9b\xfe\xd0\xe5\xce\x2e\x34\x94\x1b\x6e\xcd\x7b\x6b\xad\x6b\x65\xb7\x2f\x1b\x8c\x80\x77\x33\xc1\x0b\x26\x61\xc1\x32\xd3\x77\x28\xf7\xab\x33\x8e\x19\x56\x93\xa2\x8b\x58\xb4\xf2\xed\x9f\x43\x56\x0b\x6e\xa0\x18\x43\x4a\xa6\x76\xd3\x77\x29\x67\x14\xe6\x79\x5d\x4d\x5d\x24\xd3\xa2\x43\x7e\x2f\x06\x00\x64\x69\x80\x74\x13\xcc\x7b\x53\xcb\x7b\x13\xc6\x77\x23\x47\x21\xcf\x99\xd9\xdb\x65\x0b\x7f\x9d\x5b\xde\x85\x81\xca\x0b\xc9\xdd\x14\xbc\x3d\xef\x35\x5d\xa0\x2e\x4b\xf5\x17\x96\xcb\x12\x58\x96\xd1\x1a\xd6\xda\x1e\x9a\x3a\x0f\xf7\x67\xb8\x23\x6a\x7a\x8e\xa7\xa2\x47\xa4\xc4\x6f\x98\x5a\x24\x87\x3a\x3a\xae\xe0\x29\x01\x94\x39\x54\x22\x51\xf2\xd1\xa9\x70\x04\x41\x79\x1a\xfb\xee\x84\x54\xb8\xd7\xbb\x8d\xea\xf6\x64\xc2\x0b\xc0\x96\xa4\xbd\x20\x17\xf7\x68\xb5\x32\x45\x54\x5b\x96\x4a\x87\x34\x30\x62\xc1\x0a\x3c\x54\xf6\x3d\x9e\x10\xa8\xcc\xf1\x35\xf3\x0e\xf5\xe4\xb4\x5c\x72\x73\xaa\xa2\x1d\x24\x13\x72\x8a\x97\x02\xac\x40\xae\xa4\xe2\xcb\x11\x48\x5d\xb6\x9e\x8b\x3b\x9e\xaf\xac\xd0\xa1\x18\x41\xb4\x28\xa5\xba\x40\x89\x8e\x48\x81\x76\x66\x10\xbb\xa1\x6c\xe5\xf3\x60\xb0\xf8\xf4\x44\xb9\x98\xc1\x27\x56\xe4\xbe\x61\xf2\xa6\xe6\x33\xf1\xe8\x46\x1c\x41\x84\xab\x32\x32\x4e\xbb\xc3\xe3\xd2\xbc\xbe\x18\x8f\x23\xf8\x2f\x8e\x12\x28\x95\x41\xe3\xb4\x60\x53\xe7\xe9\x0d\x7a\x84\x0e\xda\xd1\x25\x67\x68\x5c\x34\x21\x1d\x2b\x46\x2b\xa7\xc7\xe3\xa0\x54\xae\x39\x7f\x11\xbd\x2c\x0d\x23\xbd\x88\xba\x39\x09\xa0\x09\x62\xe2\x4f\x08\xe8\xa1\xac\xef\x46\x60\xa2\xf4\x40\x3b\x3d\x3a\x7e\x78\x40\xb0\x36\xf6\xa6\xf9\x2a\x90\x84\x51\x1b\x29\xc6\x5a\xb6\xe0\x78\x5f\x28\x58\xaf\x41\xcc\x76\x9c\x1f\x42\x1a\xbf\xea\xa0\xa3\x35\x36\x10\x92\x28\x32\xfe\xb8\xdb\xe3\x0b\xdb\x47\xdb\xf8\xbb\x5e\x85\x9d\x71\x5f\xcd\x01\x5a\x3d\xfa\xbf\xc1\x9e\x7e\x3d\x47\x8d\xbd\x02\x04\xaa\x70\x1f\x8c\x54\x93\x05\x19\x4c\xcb\x6a\xf5\xf6\xf5\x77\x71\x33\x02\xbf\xfd\x33\x26\x39\xaa\x0f\x8c\x58\xdb\xa6\xad\x75\xb0\x8b\x55\xd7\x2e\xed\x86\xa5\x89\x32\x3d\xb5\x06\x3b\x85\x04\xc1\x76\x2d\x81\xb5\x6d\x5b\x6e\x76\x7e\xb7\x3f\x9d\xba\xea\x2d\x2a\xd8\xcb\x77\x38\xff\x6b\x71\x7e\x28\x76\x8f\x46\xcb\x1e\x91\xa0\x3a\x8c\xbd\xf3\xf5\x8a\x1a\xb4\xe6\xb1\x7c\x9c\x30\xc9\xe1\x0c\xd7\xf0\xdb\xd7\xdf\x8d\x74\x3e\x8b\xb6\xd6\xc4\xbd\xc6\xf5\x5b\xa0\x5d\x70\x71\x09\x67\xd8\xc1\x3c\xea\xdc\x05\xb9\x07\x8e\x9c\x4f\xf0\x0b\x05\x18\xae\xd4\xa3\xcd\xc6\xbe\x41\xfb\x76\xaa\x6b\xf2\x9b\x9a\x42\x35\x28\x8e\x76\xe1\xaa\x12\xaa\x26\xcf\xf5\x7b\xda\xe7\x78\x86\x16\x86\x84\xb2\xc1\xad\xdb\x9a\xaf\xb4\x2d\xe9\xf0\x0e\x6d\x7b\x4b\x6b\xc2\xfa\x0e\x28\xda\x0a\x14\xee\x48\x01\x5e\x96\x8a\xce\x13\x23\x48\x84\xa5\x35\xc5\x82\xdd\x73\xb0\xf7\x84\xec\x37\x49\xf4\x38\x13\x9d\x20\xa3\x23\x75\xfa\xf4\x10\x6a\x7e\x8b\x1a\x9e\xce\xa6\x94\x02\xa3\x18\x37\x29\x7e\xb5\xe0\x2b\x17\x1b\x77\xd9\x44\xff\xc0\x1f\xaf\xdd\x86\x4b\xd9\xec\x2e\xed\x4c\x06\xdb\x3b\xda\x32\xbc\x1f\xf8\x11\x9f\x9e\x46\x94\xe4\xdb\x73\x20\xf4\x08\xeb\xf0\x67\xcb\x61\x3b\x8b\x87\x82\xc3\x7e\xea\xda\xed\x19\x26\xd5\x9c\xa0\x54\x21\xad\x51\xa3\x0c\x55\xe4\x1c\x54\xd8\xdb\x21\xa9\x5e\x65\xb3\x37\x22\xb5\xed\x5f\x51\x38\xca\x58\x63\xdb\x21\x29\x1b\xa5\xa1\x61\x6c\x6f\x13\x9e\x69\x7d\x9f\xed\x90\x14\xbd\x46\xc7\xd7\x98\x79\x94\x98\x71\x5f\xd0\xa0\x66\x3a\x04\xfb\x5f\xbf\xf8\xc2\xcf\x50\x8d\xe0\x81\xd2\x30\x3a\xe0\x59\xd5\x1c\x8d\x1c\xa6\xd7\x03\x2b\x34\x2c\x6d\x14\x68\x41\x65\x4a\xe1\x8d\x0f\xb8\x7e\xcc\x2c\xfc\xf5\x47\x01\x6c\x58\x1a\x17\xa6\xc5\xd1\x22\x71\x30\x64\x66\x2b\x52\x7a\x42\x66\xbd\x64\xdf\x1f\x31\x33\x83\x9e\x1e\x32\x3b\x25\x02\x76\x89\x4d\xd2\xeb\x57\x5f\x0d\x06\xc1\x30\x8a\xdd\xc6\xc6\x51\x30\x34\x09\x00\xe9\xb8\xf2\xa3\x5e\x5b\xe6\x4f\x1f\x2c\x0c\xa8\xf5\xc4\xd3\x1c\x50\x02\x67\xe0\xd5\x5e\x2e\x02\x9d\xc8\xdd\xac\xc5\xd0\x10\xb3\x78\x3b\x13\x91\x8c\x20\xf2\x64\xe6\x02\x3e\xff\x2c\xfb\x3c\x1a\x75\xc6\x70\x63\xa3\x39\x82\x13\x3e\x24\xcd\xe1\xc9\x71\xbd\xc1\xb0\xde\x50\x54\x6f\x13\x1e\x1f\xd3\x93\x55\xf2\xe5\x61\x26\xf8\x44\xb1\x13\xa6\x46\x4f\xda\x92\xec\xa0\x1b\x97\xf1\x15\xd0\x75\x71\xa2\x02\x72\x2d\x3d\xc3\x60\xc7\x24\x38\x27\x55\x75\x84\x09\xb5\x37\x16\xe4\xa2\xe7\xa1\xf3\x76\x29\x1c\x04\xec\xf8\x80\xb9\xbe\xfb\x02\x57\xfe\x3d\xab\x45\xd9\x48\xc0\xed\x04\xad\x30\xdc\x97\x83\xf1\x78\x77\xf3\x8d\xd1\x8e\x18\x81\x0e\x98\x99\x34\x3a\x2e\x92\xc4\xaa\x82\x23\xa6\xb5\x5f\x17\xe8\x26\x03\x55\x6b\x2e\x74\x84\x17\x58\xdd\xb3\x1c\x79\x11\x45\x14\x99\x34\xaf\xf6\xdf\x5d\xb0\x45\x0c\x1a\xcd\x08\xb9\x8d\x70\xd6\xfc\x43\x18\x6e\x6d\x5f\x83\xae\xf1\x76\xbb\x61\xdf\xdb\x44\x25\xde\x68\x9d\x8d\x07\xfc\xd5\x02\x2a\x0c\xa3\x72\x85\x69\x1b\x3c\x85\xae\x16\x88\xb6\xf5\xe4\x74\xd9\x96\x4d\x2a\x6d\x1d\xd1\x94\x5c\x87\x87\x3a\xb1\x4e\x1c\xe5\x8d\x79\xef\x82\x9d\xb6\xe1\x66\xfb\x44\x2b\x9a\x8c\xd1\x58\xe3\xdf\xe7\xed\x21\x2e\xfb\x93\x07\xdb\x3a\x08\xf5\x5c\xd9\xe4\x59\xf1\xb9\x6a\x57\xaf\x99\xe5\x67\x1f\x22\x63\x7c\x5a\x0d\x6a\xa8\xf2\x9a\x3d\x90\x91\xd9\xd8\xdf\xee\x9b\xfb\x80\x3f\xb6\x28\xa7\x05\xaf\x4b\x3a\x5d\xe3\xd1\x1b\xb1\x46\x05\xa7\x96\x15\xa5\x67\x89\xc1\x6a\x59\x75\xc9\x39\x14\xbb\x06\x4b\xc7\x73\x38\x2e\x6c\x2c\x66\x7a\x41\x50\xb3\xd7\xbc\xe2\x18\x63\xb4\xdd\xbe\x95\xcf\x98\xa7\x51\x5b\xc8\xf1\x95\xbd\x01\x90\x5a\x7e\x5d\x62\x2b\x88\x2c\xfb\xa3\xc4\xf6\x30\x53\x7d\x17\xb9\x10\xf5\x6f\x5c\x3c\x9e\x8a\xbf\xdf\x1b\x11\x4e\x5d\x8b\x2b\xb6\xe4\x79\x5b\x16\x4f\x72\x90\x4b\xf7\x4c\x06\x9f\x77\x56\x64\xa8\xbf\xcd\x87\x10\x1a\xe9\xd3\x2c\x8b\xf7\xa0\x32\xf2\xae\xcd\x8a\xef\x31\xe6\xd5\xe6\x4d\x3a\xd2\xd8\x47\x64\x4b\x03\xa2\x80\x6d\x47\x49\x9a\x21\x0c\x13\xb8\xbc\x84\x5f\x38\x3c\xc7\x63\x3c\xcf\x65\x2e\x1e\xa2\x94\xb3\x16\x53\x98\x70\xc0\xcb\x93\x0a\x34\xe2\xb5\x61\x47\x1d\xd4\x92\x4e\xe1\x6d\x95\x8b\x0c\x8e\x47\xfd\x7a\x56\x4a\xd0\xbb\x5a\x68\xb1\xcc\x98\xc8\x4d\x85\x90\x5d\x2b\x43\x23\x44\x44\xb6\x60\xd3\xa5\x3d\x5a\xd5\x7b\x69\x6f\xe6\x1b\xab\x65\xb5\x97\xf2\xeb\x35\xcf\x31\x44\x3f\xc3\x12\x9d\x18\x2d\x95\x1d\x71\x4d\xb6\x25\xda\x32\x03\x79\x38\x3e\xc3\x13\x2a\x4d\x81\xa5\x95\xd6\x9e\x2c\x6b\x8a\x6f\xe9\x9b\x2b\x9b\x25\x6e\x64\x08\x59\xe2\xb6\x7a\x36\x76\x4e\xf1\xce\x92\x79\xa3\x58\x7d\xfd\x58\x75\x11\xb1\xa3\xba\x45\x20\x66\x83\xd4\xda\xe2\xc0\x96\x90\x7d\x24\x77\xfb\x99\xfb\x33\xf2\x96\xd0\xa3\x4d\xcd\xee\x01\x9a\x75\xe1\x49\xeb\xcd\x40\x48\x7e\x0a\x71\x37\x7d\x94\x33\x42\x62\x9b\xac\xd7\xe3\xb3\x3f\xff\xe3\xff\xf9\xf1\x4f\x7f\xff\xe3\xdf\xfd\xd3\x8f\xff\xff\x8f\x7f\xf9\xdb\xff\xfb\xaf\xff\xfc\x2f\x7f\xfe\xd3\xff\xfb\xf1\x1f\xfe\xf8\x97\x3f\xfe\xcd\x0e\x83\xb7\xc6\x3f\x8e\x8d\x3e\xa9\x3f\x42\xdd\x9c\x0d\x81\xde\x59\x0c\xfe\xcc\x3e\x62\xa0\x43\xe3\xb4\xc1\x1b\x47\x54\x6f\x5f\x71\x4f\xf4\xb0\xd9\x74\xb7\xa6\x12\x33\x98\x43\x39\xcd\xdd\xfd\x49\x37\x1f\xde\x9f\x5a\xb0\x95\xb3\x1f\x4c\x17\xb2\xdd\xa1\xc3\x37\xa7\x10\xcc\x62\xee\x6a\x04\x7a\x67\xe5\xc7\x76\xec\x5c\x84\x41\xb4\xa1\xa6\x1e\x71\xf4\xc1\x02\x0b\x82\x6a\x84\xc8\x0a\xf3\x22\x08\x07\x56\xec\xd7\x5c\xb5\x40\xe8\xbc\xb6\xa5\xfa\xa0\x46\x3e\x75\xd9\xf6\x0e\xe2\x74\xb2\x95\xa2\x7d\x6b\x77\x47\xaa\x08\xd8\xa1\xe5\xdb\x2f\xa1\x3f\x33\x7d\x8f\x46\x6d\x4b\xe2\xfb\x69\xbf\x83\xb9\x2f\xee\x5b\x8f\x9d\x27\x7a\xd0\x11\xfa\xd6\x3e\xd4\x68\xc0\x25\x10\x92\xc6\xb5\x88\xb5\x29\x4d\x32\x5f\x78\x36\xbd\x8e\x6b\x47\x73\xae\xcc\x05\xa0\xbe\xcd\x88\x1e\x4a\xd7\x64\x54\xe5\x6b\xae\x3e\xd6\x4b\x38\xc6\x74\x3c\x3f\x50\x70\xd0\x2d\x7c\x18\x9f\xc1\xab\x22\x5f\xe9\xcb\xc4\x10\x61\xdd\x5a\x52\xe2\x53\x2e\xac\xc9\x42\x51\x45\xec\x8b\xb9\x28\x3c\x82\xab\x29\x5b\xaa\x85\x5f\x7f\x5c\x2e\x85\x42\xbb\x33\x6b\xf4\x8d\x47\x18\xbf\x10\x05\xd6\xe7\x9e\x8d\x69\x44\x3d\xfd\x5e\xb5\x75\xc0\x7a\x6c\xb5\x59\x87\x7f\xb4\x62\xb6\x43\x03\x2f\x0e\x07\x06\xda\xc8\xc0\x60\x2e\x7f\x38\x99\x3f\x98\xcd\xd7\x6b\x07\x13\xc4\xce\xb9\x71\x18\xfa\x2a\xe4\xe3\x7d\x1c\xe3\x6a\xeb\x50\x0e\x86\xdf\x50\x37\xc1\x67\xf7\xd1\x08\x34\x65\x5b\x4f\xe7\x19\x36\x70\xc1\x29\x77\xd9\x6b\x8c\xd5\xa2\x12\x4f\x2b\x3c\x6b\x66\x33\x5e\xc7\x88\xab\x5f\x63\x0f\x7e\x49\x09\xc5\x29\x82\xdd\x1b\xf0\x0e\xde\x89\xe3\x2e\xc4\x3d\x36\x67\xfb\xf2\xe9\xed\x1b\xaa\x1e\xb4\xef\x0e\xff\x8d\xdb\xa2\x43\xec\x0f\x26\xce\xed\x9e\xe9\xb0\x30\xe2\x82\x88\x16\x23\x90\xf5\xbd\x79\x76\x17\x1c\x92\x67\xbf\x7b\xb7\xe2\xb1\xe7\x78\x03\xd9\x4c\xbc\x03\x71\x8e\xf1\x38\x36\x6e\xe1\x0d\x7f\xd3\x4c\xe4\xb4\x16\x13\x73\x0d\xd1\xd6\xc1\xda\xcd\xc6\xbf\xe6\x05\xbd\xfc\xbe\x36\xa8\xa3\xeb\x7b\xbf\xa5\x06\xc2\x5f\xc8\xb9\x9e\x64\x72\x50\xa2\x48\x32\x30\xd0\xd0\x45\xd8\x3b\xa4\xea\xb1\x7d\xbd\xee\xdc\x91\xc2\xee\xb8\xc7\xa0\x63\x6f\x1d\xc2\x2e\x47\xdc\x3a\xd4\x42\x3e\x78\xbe\xa9\x73\xbb\x72\xea\x08\x4b\xa7\x46\x12\x9f\xb7\x03\xb7\x0d\xed\x87\x40\xa5\x28\x1f\x73\xe9\x50\x30\x04\xb9\x73\x9a\x09\x1b\xf9\x2f\xfe\xfa\xd7\x15\xb5\x14\x39\x78\xc4\x99\xf4\xab\x13\x8d\x0b\xe8\xce\x09\x0f\x08\xb9\x69\x9d\x74\x57\x11\xb2\xd8\x6b\x41\x3b\xdb\x88\xae\x5f\xb8\x2e\x7a\xdb\x78\x59\xda\xb6\xc5\x56\x55\xd8\xa9\x97\x19\x79\xf2\xe1\x9d\x45\x39\xfd\x32\x23\x0f\x8e\x2b\x31\x3f\x4c\x5c\x6f\x7a\x00\x70\xd6\xa5\x6e\x4b\xda\x9d\x3b\x8a\x68\xa4\xed\xcc\xd4\xd0\x38\x5e\x6e\x04\x49\xb6\x5e\x77\xc9\xde\x9f\xa3\x5b\xca\x39\xa9\xca\x17\x72\x3e\x9c\x12\xd9\xad\x16\xee\x3b\x9f\xbb\xe7\xcc\xc1\x52\xce\xd3\xe7\x7a\x87\xec\xaf\x92\xed\x2b\xea\xb0\xb2\x3c\x70\xd8\x97\xc8\x43\x71\xf3\xb6\xcc\xb1\x47\x5e\xb6\x43\xdb\x7a\xc2\x47\x94\x39\x62\xa8\x06\xca\xc9\xef\xb1\x7c\x87\x22\xd7\xd2\xf1\xcb\x5e\x17\xf3\x82\x15\x2b\x1d\xd4\x39\xc7\x1c\xae\x2d\xe7\x31\x77\x4a\x36\x18\xeb\xc0\x94\x19\xa2\x87\xaa\xb3\x90\x02\x13\xb6\x74\xfc\x8c\xd4\xe1\x20\xde\x03\x79\x55\x1c\x97\x2c\xff\x11\x14\xd3\xce\x5e\xe7\x32\x4a\xfd\xa1\x6c\x4b\xe7\x8e\x0c\x9a\xf1\x71\x0a\xfe\xc0\x34\x10\x8e\xd0\x82\x4d\xbc\x15\xa5\x35\x1a\x92\xf6\x01\xc9\x26\x24\x4e\x4f\xf9\x87\xb5\x98\xeb\x66\x6e\xe3\x64\x3a\x0d\x0e\xe8\xfa\xc8\x14\x5e\x96\x36\x82\x83\x00\x4d\x1e\x52\x5b\x81\x6d\x05\x1e\x65\xcd\xa3\xff\xa5\x25\x31\xa2\xc3\x13\xed\xd8\xed\x39\x8f\xaf\x4c\x14\x64\x52\x96\x39\x80\x3d\xe8\x41\xdd\x7e\x67\x8f\x81\x10\xcd\xec\x67\x5e\xd3\x29\x10\xcd\x84\x6d\x1d\x7d\xe0\x0c\xd8\x1e\x26\x24\x88\xd0\xc4\x99\x04\x1d\x4f\xd2\x8d\xb2\xd6\xb6\x63\xcf\x21\xb0\xde\x85\xe1\x8a\x9c\x8a\x69\x7a\xd3\x4c\x72\x21\x17\x31\x71\x67\xb2\xc3\x12\x4a\x45\xb9\xd3\xc9\xed\x41\x3c\x46\xb2\x33\x65\x75\x2d\xb8\x1c\xa1\x23\x8f\x25\x92\x26\x5e\xd6\xb2\x8b\xe4\x72\x1b\xa2\xb6\x1b\xfb\x0f\x1f\x79\x5c\xc1\x7b\xfa\x77\xd6\x3f\xf6\x1c\xc1\x13\x3a\x27\xf6\x09\x4f\x89\x61\xdd\xb5\xef\x2f\x7b\xb2\x87\x31\x4d\xca\xbd\xc3\x3e\xa7\x58\x96\x94\x59\xb3\xef\x4e\xa8\x06\xf4\x7a\x1f\xb8\x18\x07\xa7\xfd\xef\x7d\x31\x4e\x8b\xdd\xae\xad\x3b\x68\x36\x91\xd8\xf0\xfa\x94\x62\xbf\xe1\x5b\x71\xfc\xcd\xc8\xb7\x5c\xbd\x7d\x2f\x38\xe5\xb6\x1b\x5b\x78\xd6\xd7\xfc\x72\xd7\x22\x71\xb3\xa1\x9a\x33\x77\xed\x4d\x10\xf4\x9a\xd2\xbe\xa5\x12\x51\xc3\x1e\xb5\xeb\xd7\x92\x3d\xe7\x87\xec\x93\xdd\x22\xb2\xed\x1a\xb2\x4e\xcd\xbe\xdb\xbc\xac\x88\xf7\x56\x8c\xf5\x6e\xef\xe4\xe0\x7b\x88\x7c\xf4\x35\x34\x38\xa1\xa1\xa2\x97\x21\xd3\xc2\xd5\xba\x0c\x50\xa3\x77\x7f\x3d\xee\x1a\x1a\x6b\x7b\xfc\xd5\x2e\x9c\x19\x40\xf9\x08\x73\x08\x86\xed\xa1\xd6\xce\xd9\xd1\x91\xd6\xd2\x39\xce\xc6\xe9\xa9\x89\xe8\xbd\xa8\xe6\x58\xd3\x4a\x56\xc7\x8d\xbb\x5b\x9a\xd0\x35\xae\x7c\x29\x21\x0b\xab\xdf\xc0\xa2\xbc\xf9\x1e\xfb\xaa\x7b\xf0\xce\xfd\x5f\x76\x51\xed\x1e\x45\xc4\xb4\xeb\x38\x60\x72\x21\x35\xad\xce\x7c\x21\xe7\xdb\x16\xd7\xb9\xc6\xf5\xe7\x31\xbb\x8e\xb5\x94\x0f\x55\x0c\x58\x92\x0f\x9a\x59\x6e\x20\x2d\x73\x0e\x5c\xe2\xb1\xe1\xdf\x06\x00\x1a\x00\xd5\xbc\x62\x6e\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 28143, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xb6, 0x3d, 0xe8, 0x67, 0x5a, 0xcf, 0xa8, 0x32, 0x9d, 0xde, 0xe4, 0x3b, 0x99, 0x81, 0x6d, 0x2c, 0xc6, 0xe6, 0x98, 0xb2, 0x80, 0xa1, 0xa3, 0xd2, 0xf4, 0xb5, 0x4b, 0xb3, 0x9a, 0x53, 0x82, 0x60}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 28258, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x6f, 0xd, 0x1d, 0x1, 0x41, 0xb3, 0xce, 0xd8, 0xe8, 0xab, 0x49, 0x19, 0x6f, 0xf5, 0x89, 0x29, 0x8, 0x10, 0x73, 0x1a, 0xe7, 0x3f, 0x3b, 0x3d, 0x18, 0x62, 0xbe, 0xfd, 0xed, 0x95, 0x95, 0x35}}
 	return a, nil
 }
 
-- 
2.43.0


From 7241d865cf236acc4d4fad7e8e3bdb8a05b280cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:00:30 +0000
Subject: [PATCH 44/45] fix: stop the server when its NATS connection is closed
 for good

When reconnecting is given up (or the server revokes the authorization) the
client library closes the connection, but Run kept waiting although the NATS
transport was dead.
---
 gengokit/template/NAME-service/server/server.go.tmpl | 5 ++++-
 gengokit/template/template.go                        | 8 ++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/gengokit/template/NAME-service/server/server.go.tmpl b/gengokit/template/NAME-service/server/server.go.tmpl
index a4dcf54..f68a116 100644
--- a/gengokit/template/NAME-service/server/server.go.tmpl
+++ b/gengokit/template/NAME-service/server/server.go.tmpl
@@ -98,7 +98,10 @@ func Run(cfg Config) {
 	if cfg.NATSAddr != "" {
 		go func() {
 			log.Println("transport", "NATS","addr", cfg.NATSAddr)
-			conn, err := nats.Connect(cfg.NATSAddr)
+			conn, err := nats.Connect(cfg.NATSAddr, nats.ClosedHandler(func(c *nats.Conn) {
+				// the connection was lost and reconnecting given up
+				errc <- c.LastError()
+			}))
 			if err != nil {
 				errc <- err
 				return
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index 80cd918..afe3bad 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -5,7 +5,7 @@
 // NAME-service/cmd/NAME-client/main.go.tmpl (2.923kB)
 // NAME-service/server/endpoints.go.tmpl (230B)
 // NAME-service/server/interrupt.go.tmpl (332B)
-// NAME-service/server/server.go.tmpl (3.186kB)
+// NAME-service/server/server.go.tmpl (3.316kB)
 // NAME-service/server/wrapper.go.tmpl (1.078kB)
 // NAME-service/service/service.go.tmpl (572B)
 // NAME-service/service/service_methods.go.tmpl (291B)
@@ -178,7 +178,7 @@ func serverInterruptGoTmpl() (*asset, error) {
 	return a, nil
 }
 
-var _serverServerGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\x9c\x57\x4b\x6f\xdb\x38\x10\x3e\x8b\xbf\x62\x2a\xf4\x20\x2f\x1c\xea\x5e\x34\x87\xd4\x49\xb7\x01\xb6\xa9\x91\x18\xbb\xc7\x05\x2d\x8d\x65\xa2\x34\xa9\x0e\x29\x3b\x5d\x41\xff\x7d\x31\xd4\xc3\x76\x93\x06\x6d\x2e\xb1\x38\x8f\x6f\x1e\xdf\xf0\x91\x3c\x87\x85\x2b\x11\x2a\xb4\x48\x2a\x60\x09\xeb\xef\xb0\x56\xe4\xac\x84\xeb\x2f\x70\xf7\x65\x05\x37\xd7\xb7\x2b\x29\xf2\x1c\xee\x91\x1a\x6b\xb5\xad\x7a\x03\x38\x68\x63\xc0\xed\x91\x0e\xa4\x03\x42\xd8\x6a\x0f\x1b\x6d\x30\x1a\xff\x8d\xe4\xb5\xb3\xef\xa0\x6d\xe5\xf0\xdd\x75\x27\x0a\xb8\x56\x01\x4f\xb5\xbc\xee\x3a\x21\x6a\x55\x7c\x55\x15\x82\x47\xda\x23\x09\xa1\x77\xb5\xa3\x00\x99\x48\x52\xe3\xaa\x54\x24\xa9\xc5\x30\xfc\xe4\xdb\x10\xea\xd3\xef\xbc\xae\xc9\x6d\x58\x42\x8d\x0d\x7a\x87\xa9\x10\x49\xdb\xea\x0d\xe0\x37\x90\x0b\x67\x37\xba\x92\x2b\x52\xd6\x47\xd0\x54\x19\x93\x42\x6a\x55\xf0\x29\x74\x9d\x48\xd2\x4a\x87\x6d\xb3\x96\x85\xdb\xe5\x2c\xbd\xd0\x2e\xfe\xca\xca\xa5\x0c\x84\xb6\xec\xba\x5f\x40\xac\xa8\x2e\x46\x44\xe7\x2a\x83\xb2\x72\x46\xd9\x4a\x3a\xaa\xf2\xa8\x3c\xa2\x89\xa4\x5e\x43\xda\xb6\x72\xf9\xe1\x36\xd6\xba\x54\x61\x0b\x17\x5d\xc7\x65\xb4\xad\x3c\x17\xe6\xdc\x17\x5d\x60\x2a\x66\x42\xec\x15\x71\x63\xfe\x85\xa1\x5a\x79\x43\xe4\x88\x05\x16\xc3\xb0\x98\x09\xee\x7a\x5f\x3a\x14\xce\x06\xa5\xad\x87\xb0\x45\x20\xfc\xd6\x68\xc2\x12\x36\x1a\x4d\xe9\x61\xe3\x08\x46\x86\xd5\xd8\xff\xf0\xbd\xc6\xd1\xdb\x07\x6a\x8a\x00\xad\x48\x3e\xad\x56\xcb\xab\xb2\x24\xf0\x81\xb4\xad\x44\x72\x8d\xeb\xa6\x3a\x93\xfc\x79\xbf\x5c\x9c\x09\xee\xae\x56\x0f\x67\x82\xe8\x03\x6b\xe7\x8c\xe8\x62\x92\xf7\x8d\x05\x1f\x14\x05\x0f\x0a\x2c\x1e\x80\x29\x1d\x12\x99\x43\x75\xbf\x5c\x4c\x0b\x65\x4b\x50\x50\x46\x84\x5e\x06\x07\x1d\xb6\x5c\x17\x23\xd5\xca\x7b\x2c\xb9\x5c\xce\x9b\x8d\x8d\xab\x2a\x24\xb1\x69\x6c\x01\xf7\x8d\xcd\x8a\x4d\x35\x94\x35\xe3\x82\xf2\x1c\xae\xea\xda\xe8\x42\x05\x1e\xce\xd2\xed\x94\xb6\x22\x41\x5b\xd6\x4e\xdb\xe0\xe1\xdd\x25\xdc\x8c\x8b\x6c\x26\xa2\xc7\x92\x19\x9f\x4c\x89\x0a\xb6\xda\xa9\xaf\x98\x15\x5b\x65\x01\xb9\xff\x83\xe9\x43\x9f\xe3\xad\x0d\x48\xd4\xd4\x01\x44\x52\xb9\xe3\x32\x43\xa2\x62\x30\xed\xdb\x62\xb4\x0f\xbc\x27\x45\xa2\x37\x50\x6c\x2a\xd9\x8b\x5b\x91\xb0\x23\x97\x91\xc5\xc4\x93\xc4\xb8\x4a\x2e\x49\xdb\x60\x6c\x96\x86\x71\x12\xd3\x39\xa4\xb1\x3d\xfc\xa1\xca\x92\xd2\xf9\x11\x86\x69\xe0\x68\x49\xb2\xe3\x94\xb9\xcd\xf2\x0e\x0f\x31\xc9\xcf\xcd\x63\x36\x8b\x2a\xf9\x49\xd9\xd2\x60\x96\xe6\x11\xa8\xdf\x5b\x79\x3a\x8f\xb4\x0c\x4a\xfa\xc8\x99\x44\x8d\xbc\xb5\x25\x3e\xce\x5e\xf2\x2d\x76\xa5\xd1\x16\x7f\x0e\xb1\xe8\x0d\x5e\x04\xe1\x3f\xda\xbc\x00\xb2\xec\x0d\x5e\x04\xf1\xdf\x77\x6b\x67\x7e\x8e\xf1\x10\xf5\x2f\x42\x04\x52\xc5\x0b\x59\xac\x58\x3d\xeb\xbb\xcc\xec\xc2\xfb\x8b\x3e\xd8\x5f\x91\xd9\x2b\x5b\xc6\x76\x67\x67\xa4\xcc\x61\xc7\x21\x3b\x66\x60\x3c\x67\x24\x6f\xb6\x4f\x68\x6a\x24\xf9\x19\xc3\xd6\x95\x9e\x0f\x96\x3c\x07\x56\xc0\xc4\xf8\x34\x29\xd3\xe6\x7c\x73\x09\x69\xfa\x7b\x23\xc3\xbe\x3f\x4c\xcc\x08\xc7\x89\x25\x5b\x9e\x97\x7a\x2d\x3f\xab\xaf\xc8\x8a\xa1\xee\x6c\xda\x28\xf3\x98\x55\x2c\x8d\xbe\xd4\xbc\x99\x7c\x36\x93\x52\xce\x7e\xa5\x0f\x63\xa8\x39\x6c\xcf\xdb\xf0\xfb\xe7\x6e\x9e\xf7\x07\xc6\xd3\xf6\x4c\x07\xd3\x2b\xda\xc3\x90\xe9\xfc\xb4\x3b\x23\x1a\xe7\x9b\x18\x3b\xe7\x5d\xcf\x3d\xe2\x03\xb8\xaf\x30\x4b\x43\x51\x3f\x67\xcd\x77\x08\x11\xbc\xb9\x04\xab\x4d\x4f\xcc\xd4\x21\x24\x8a\x6b\xc2\xd0\x90\xe5\x4f\xbe\x28\x92\xc4\xd3\xfe\x84\x01\x0e\xde\xb7\xfa\x94\x80\xa3\xf4\x09\x01\xf1\x1c\xe3\x26\x4d\xdb\x9d\x78\xd4\x92\xa4\x5e\xcb\x7b\xac\x38\x5f\x6a\x5b\xc9\x1a\x5d\xa0\xbc\x53\x3b\xec\xba\xc1\xce\xcf\xc1\xd3\xfe\x7c\xa0\x7d\x34\xc5\xcc\xd8\xd7\xf1\x75\xbc\x79\xf3\x1c\xf8\x82\x78\x86\xaf\xe9\xde\x78\x05\x5f\xec\x7b\xce\xd7\x88\xc6\xf9\x26\x85\xb3\x27\x8c\xf1\x3d\xbf\x70\xd6\x62\x11\xb2\x27\xa6\xbf\x4b\x16\xa3\x1b\xe7\x91\x01\x19\x3d\x6e\xbf\x02\xfe\x98\xa2\x0c\xb9\x27\x85\x5c\xb0\x5d\x4f\x43\xf4\x1b\x2f\xf3\x07\x0c\x1f\xb5\x55\x46\xff\x87\x94\xf5\xa9\x4e\x90\xb3\x67\xa6\x81\x4b\x7b\x3a\x0d\x51\xda\xac\x7d\x41\x7a\xfd\xcc\x44\xf0\xb8\xc6\x79\x8a\x9e\x6c\x3c\x84\x8a\x5c\xbf\xaa\xf0\x1f\xc7\x20\x92\x7b\xf3\xa8\x83\x38\x67\x0a\x1f\x35\x93\xf4\xfe\x82\xfb\x38\xe3\x37\x00\x37\x09\xee\xf0\x70\xbc\x69\xfd\xbe\xe0\xe4\x7e\x32\x93\x33\xd6\x4d\xc6\xc3\x3d\xfe\xa1\xf1\xda\xa2\xf7\xd3\xcd\xcc\x18\x97\x30\xbc\x9b\xe4\x3f\xa4\xea\x01\x2b\xf3\xfb\x62\x16\x7d\x46\x8c\xc9\x67\x78\x59\xb5\x2d\x29\x5b\x21\xbc\xd5\xcc\xe1\x94\xc3\x70\x0c\xf3\x7b\x4c\x24\xd3\x23\xa1\x6d\xdf\xea\x21\x3d\x98\x48\x39\x11\x8e\x41\x86\xb0\xd3\x2e\x61\x2e\x27\xc2\x06\x3e\x47\x5b\xdf\xfe\x62\x12\xcf\xc4\x79\x07\x00\xf0\x4c\x72\xf3\x93\xd8\xfd\x45\xc2\x3d\x01\x8f\x06\x0b\xfe\x0f\x60\x8a\xdd\x3f\xa9\x76\xba\x2c\x0d\x1e\x14\xa1\x3f\xcd\xf3\xbc\xa3\x93\xcf\x71\xf4\xb8\xac\x7e\x47\x4c\x49\x78\xd1\x89\xff\x07\x00\xff\x78\xa5\xd2\x72\x0c\x00\x00")
+var _serverServerGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\x9c\x57\x5f\x6f\xdb\xba\x0f\x7d\xb6\x3e\x05\x67\xec\xc1\xfe\x21\x95\xdf\x87\xf5\xa1\x6b\xbb\xdf\x0a\x6c\x5d\xd0\x16\xf7\x3e\x5e\x28\x36\xe3\x08\x53\x24\x8f\x92\x93\xee\x1a\xfe\xee\x17\x94\xff\x24\xd9\xda\x62\xeb\x4b\x63\x8b\x14\x75\x78\x0e\x69\xaa\x45\x01\x97\xae\x42\xa8\xd1\x22\xa9\x80\x15\xac\x7e\xc0\x4a\x91\xb3\x12\xae\xbe\xc2\xed\xd7\x07\xb8\xbe\xba\x79\x90\xa2\x28\xe0\x0e\xa9\xb5\x56\xdb\x7a\x70\x80\xbd\x36\x06\xdc\x0e\x69\x4f\x3a\x20\x84\x8d\xf6\xb0\xd6\x06\xa3\xf3\x5f\x48\x5e\x3b\xfb\x0e\xba\x4e\x8e\xcf\x7d\x7f\x64\x80\x2b\x15\xf0\xd8\xca\xef\x7d\x2f\x44\xa3\xca\x6f\xaa\x46\xf0\x48\x3b\x24\x21\xf4\xb6\x71\x14\x20\x13\x49\x6a\x5c\x9d\x8a\x24\xb5\x18\xc6\x9f\x62\x13\x42\x73\xfc\x5c\x34\x0d\xb9\x35\xaf\x50\x6b\x83\xde\x62\x2a\x44\xd2\x75\x7a\x0d\xf8\x1d\xe4\xa5\xb3\x6b\x5d\xcb\x07\x52\xd6\xc7\xa0\xa9\x32\x26\x85\xd4\xaa\xe0\x53\xe8\x7b\x91\xa4\xb5\x0e\x9b\x76\x25\x4b\xb7\x2d\x78\xf5\x4c\xbb\xf8\x2b\x6b\x97\x72\x20\xb4\x55\xdf\xff\x46\xc4\x9a\x9a\x72\x8a\xe8\x5c\x6d\x50\xd6\xce\x28\x5b\x4b\x47\x75\x11\x8d\x87\x68\x22\x69\x56\x90\x76\x9d\x5c\x7e\xb8\x89\xb9\x2e\x55\xd8\xc0\x59\xdf\x73\x1a\x5d\x27\x4f\x17\x0b\xe6\x45\x97\x98\x8a\x5c\x88\x9d\x22\x26\xe6\x1f\x18\xb3\x95\xd7\x44\x8e\x78\xc1\x62\x18\x5f\x72\xc1\xac\x0f\xa9\x43\xe9\x6c\x50\xda\x7a\x08\x1b\x04\xc2\xef\xad\x26\xac\x60\xad\xd1\x54\x1e\xd6\x8e\x60\x52\x58\x4d\xfc\x87\x1f\x0d\x4e\xbb\x7d\xa0\xb6\x0c\xd0\x89\xe4\xd3\xc3\xc3\xf2\xa2\xaa\x08\x7c\x20\x6d\x6b\x91\x5c\xe1\xaa\xad\x4f\x56\xfe\x7f\xb7\xbc\x3c\x59\xb8\xbd\x78\xb8\x3f\x59\x88\x7b\x60\xe5\x9c\x11\x7d\x04\x79\xd7\x5a\xf0\x41\x51\xf0\xa0\xc0\xe2\x1e\x58\xd2\x11\xc8\x02\xea\xbb\xe5\xe5\xfc\xa2\x6c\x05\x0a\xaa\x18\x61\x58\x83\xbd\x0e\x1b\xce\x8b\x23\x35\xca\x7b\xac\x38\x5d\xc6\xcd\xce\xc6\xd5\x35\x92\x58\xb7\xb6\x84\xbb\xd6\x66\xe5\xba\x1e\xd3\xca\x39\xa1\xa2\x80\x8b\xa6\x31\xba\x54\x81\x8b\xb3\x72\x5b\xa5\xad\x48\xd0\x56\x8d\xd3\x36\x78\x78\x77\x0e\xd7\xd3\x4b\x96\x8b\xb8\x63\xc9\x8a\xcf\xae\x44\x25\x7b\x6d\xd5\x37\xcc\xca\x8d\xb2\x80\xcc\xff\xe8\x7a\x3f\x60\xbc\xb1\x01\x89\xda\x26\x80\x48\x6a\x77\x78\xcd\x90\xa8\x1c\x5d\x07\x5a\x8c\xf6\x81\x7b\x52\x24\x7a\x0d\xe5\xba\x96\xc3\x72\x27\x12\xde\xc8\x69\x64\x11\x78\x92\x18\x57\xcb\x25\x69\x1b\x8c\xcd\xd2\x30\x55\x62\xba\x80\x34\xd2\xc3\x0f\xaa\xaa\x28\x5d\x1c\xc2\xb0\x0c\x7c\x5a\x92\x6c\x19\x32\xd3\x2c\x6f\x71\x1f\x41\x7e\x69\x1f\xb3\x3c\x9a\xe4\x27\x65\x2b\x83\x59\x5a\xc4\x40\x43\x6f\x15\xe9\x22\xca\x32\x1a\xe9\x23\x23\x89\x16\x79\x63\x2b\x7c\xcc\x5f\xda\x5b\x6e\x2b\xa3\x2d\x3e\x1f\xe2\x72\x70\x78\x31\x08\xff\xd1\xe6\x85\x20\xcb\xc1\xe1\xc5\x20\xfe\xc7\x76\xe5\xcc\xf3\x31\xee\xa3\xfd\xc5\x10\x81\x54\xf9\x02\x8a\x07\x36\xe7\x03\xcb\xac\x2e\xbc\x3f\x1b\x0e\xfb\x1c\x95\xbd\xb0\x55\xa4\x3b\x3b\x11\x65\x01\x5b\x3e\xb2\x67\x05\xa6\xef\x8c\xe4\x66\xfb\x84\xa6\x41\x92\x5f\x30\x6c\x5c\xe5\xf9\xc3\x52\x14\xc0\x06\x98\x15\x9f\x2b\x65\x6e\xce\x37\xe7\x90\xa6\x7f\x56\x32\xbc\xf7\xa7\x8a\x99\xc2\x31\xb0\x64\xc3\xf5\xd2\xac\xe4\x17\xf5\x0d\xd9\x30\xe6\x9d\xcd\x8d\xb2\x88\xa8\x62\x6a\xf4\xb5\xe1\x66\xf2\x59\x2e\xa5\xcc\x7f\x87\x87\xe9\xa8\x05\x6c\x4e\x69\xf8\xf3\xef\x6e\x51\x0c\x1f\x8c\x5f\xe9\x99\x3f\x4c\xaf\xa0\x87\x43\xa6\x8b\x63\x76\xa6\x68\x8c\x37\x31\x76\xc1\x5d\xcf\x1c\xf1\x07\x78\xc8\x30\x4b\x43\xd9\x3c\xe5\xcd\x33\x84\x08\xde\x9c\x83\xd5\x66\x10\x66\x66\x08\x89\xe2\x3b\x61\x68\xc9\xf2\x23\x0f\x8a\x24\xf1\xb4\x3b\x52\x80\x0f\x1f\xa8\x3e\x16\xe0\xb0\xfa\x8b\x00\xf1\x3b\xc6\x24\xcd\xed\x4e\x5c\x6a\x49\xd2\xac\xe4\x1d\xd6\x8c\x97\xba\x4e\xb2\x45\x97\x28\x6f\xd5\x16\xfb\x7e\xf4\xf3\x0b\xf0\xb4\x3b\x2d\x68\x1f\x5d\x31\x33\xf6\x75\x7a\x1d\x26\x6f\x51\x00\x0f\x88\x27\xf4\x9a\xe7\xc6\x2b\xf4\xe2\xbd\xa7\x7a\x4d\xd1\x18\x6f\x52\x3a\x7b\xa4\x18\xcf\xf9\x4b\x67\x2d\x96\x21\x3b\x76\x5d\x8c\x26\xe3\x3c\x56\x53\xc1\xc7\x76\x2a\xe1\x7f\xf3\xae\x11\x0b\xcf\x05\x1e\xae\x1c\x1a\x4b\xa6\x1f\xf6\xca\x83\x71\x3e\xc4\x39\x44\x38\x59\x6c\x0d\xb5\xde\xa1\x85\xb6\x39\x91\xbe\x94\x9f\x95\x0f\x71\x78\x0f\xda\xf4\xf9\xab\xca\x85\xf3\x63\xc8\x9c\x12\xe7\xf7\x2c\xe2\x52\x5e\xb2\xdf\x78\x18\xff\x99\xae\x13\xf7\x18\x3e\x6a\xab\x8c\xfe\x17\x29\x63\xdc\x0b\x98\x43\xe6\x4f\xd4\x23\x93\xfb\x6b\x3d\xc6\xd5\x76\xe5\x4b\xd2\xab\x27\x6a\x92\x1b\x26\x56\x74\xdc\xc9\xce\xe3\x51\xb1\xda\x5e\x95\xf8\xcf\x85\x18\xcb\xeb\xfa\x51\x07\x71\x5a\x2b\xf8\xa8\xb9\x4c\xde\x9f\x31\x8f\x39\xdf\x42\x98\x24\xb8\xc5\xfd\x61\xd6\xfb\x5d\xc9\xe0\x9e\xe9\x8a\x9c\x6d\xb3\xf3\x78\x93\xf8\xd0\x7a\x6d\xd1\xfb\xf9\x6e\xc0\x31\xce\x61\xbc\xb9\xc9\xbf\x49\x35\x63\xac\xcc\xef\xca\x3c\xee\x99\x62\xcc\x7b\xc6\xbb\x5d\xd7\x91\xb2\x35\xc2\x5b\xcd\x1a\xce\x18\xc6\x41\xc0\x37\x42\x91\xcc\xd7\x94\xae\x7b\xab\x47\x78\x30\x8b\x72\xb4\x38\x1d\x32\x1e\x3b\xf7\x29\x6b\x39\x0b\x36\xea\x39\xf9\xfa\xee\x37\x41\x3c\x71\xce\x3b\x00\x80\x27\xc0\x2d\x8e\xce\x1e\x46\x19\x73\x02\x1e\x0d\x96\xfc\x3f\xc8\x7c\xf6\x70\xa9\xdb\xea\xaa\x32\xb8\x57\x84\xfe\x18\xe7\x29\xa3\xf3\x9e\x43\xe9\x71\x5a\x43\x47\xcc\x20\xbc\xe8\xc5\x7f\x03\x00\x5a\x10\x64\x4f\xf4\x0c\x00\x00")
 
 func serverServerGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -193,8 +193,8 @@ func serverServerGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "server/server.go.tmpl", size: 3186, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x22, 0x4b, 0x84, 0x8c, 0xef, 0x9d, 0xb4, 0x1d, 0xd1, 0x7, 0x43, 0xda, 0x37, 0x33, 0xe4, 0x3, 0x6e, 0x34, 0xd6, 0xdd, 0x28, 0xec, 0x2, 0xd9, 0x66, 0xe9, 0xc, 0xb0, 0xae, 0xe4, 0xc0, 0x34}}
+	info := bindataFileInfo{name: "server/server.go.tmpl", size: 3316, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xe6, 0x80, 0x13, 0xef, 0x72, 0x2f, 0xbe, 0xec, 0x5f, 0x68, 0x1d, 0x73, 0x9, 0xc1, 0x3b, 0xb1, 0x13, 0xf7, 0xdc, 0xf3, 0x5c, 0xd4, 0x6e, 0x85, 0xd7, 0x5d, 0x37, 0xee, 0x3a, 0x93, 0x47, 0x99}}
 	return a, nil
 }
 
-- 
2.43.0


From f471a0ebe9cf554dfb50ee4260a1e44858dfd43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:55:25 +0000
Subject: [PATCH 45/45] fix: do not take a host whose name begins with http for
 a URL in the generated HTTP client

---
 .../template/NAME-service/baron/NAME.pb.baron.go.tmpl     | 2 +-
 gengokit/template/template.go                             | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
index 41c6cbb..51de1ec 100644
--- a/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
+++ b/gengokit/template/NAME-service/baron/NAME.pb.baron.go.tmpl
@@ -508,7 +508,7 @@ func HTTPHeadersToContext(ctx context.Context, r *http.Request) context.Context
 // instance. We expect instance to come from a service discovery system, so
 // likely of the form "host:port".
 func NewHTTPClient(instance string, options ...httptransport.ClientOption) ({{.Service.Name}}Server, error) {
-	if !strings.HasPrefix(instance, "http") {
+	if !strings.Contains(instance, "://") {
 		instance = "http://" + instance
 	}
 	u, err := url.Parse(instance)
diff --git a/gengokit/template/template.go b/gengokit/template/template.go
index afe3bad..7b9a462 100644
--- a/gengokit/template/template.go
+++ b/gengokit/template/template.go
@@ -1,6 +1,6 @@
 // Code generated by go-bindata. DO NOT EDIT.
 // sources:
-// NAME-service/baron/NAME.pb.baron.go.tmpl (28.258kB)
+// NAME-service/baron/NAME.pb.baron.go.tmpl (28.256kB)
 // NAME-service/cmd/NAME/main.go.tmpl (1.381kB)
 // NAME-service/cmd/NAME-client/main.go.tmpl (2.923kB)
 // NAME-service/server/endpoints.go.tmpl (230B)
@@ -78,7 +78,7 @@ func (fi bindataFileInfo) Sys() interface{} {
 	return nil
 }
 
-var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x4d\x8f\xe4\xb8\x95\xe0\x59\xfa\x15\xaf\x85\xee\x6a\x29\x37\x52\xd1\x5e\x60\x17\xde\x6c\xe4\x62\xab\xb2\xb2\x3f\xec\xae\xaa\x74\x55\x96\xfb\x50\x28\xb4\x19\x21\x46\x04\x9d\x0a\x49\x25\x52\x99\x19\x8e\x8d\xcb\x5e\xbc\xc0\x2e\x30\xc0\x9c\xe6\x30\x30\xe6\x34\xd7\xc1\x9c\xe7\xf7\xb8\x07\xfe\x17\x83\x47\x3e\x52\x54\x84\x14\x1f\xd5\xed\x39\x0c\x26\x01\x77\x85\x24\xf2\xf1\xf1\xbd\xc7\xc7\xf7\x45\x7a\x3c\x86\xab\x32\xe3\x30\xe7\x05\xaf\x99\xe2\x19\x4c\x56\x30\x61\x75\x59\xa4\xf0\xfc\x15\xbc\x7c\x75\x0b\xd7\xcf\xbf\xbd\x4d\xc3\xf1\x18\x5e\xf3\xba\x29\x0a\x51\xcc\x4d\x03\x78\x10\x79\x0e\xe5\x3d\xaf\x1f\x6a\xa1\x38\xa8\x85\x90\x30\x13\x39\xd7\x8d\x7f\xcb\x6b\x29\xca\xe2\x02\xd6\xeb\x94\x7e\x6f\x36\xde\x07\x78\xce\x14\xf7\xbf\xe2\xf3\x66\x13\x86\x15\x9b\xde\xb1\x39\xc7\x2f\x37\xe6\xe7\x4b\xb6\xd4\x5f\xc6\x63\xb8\xb5\x63\xc0\xb4\x2c\x14\x13\x85\x84\x25\x57\x8b\x32\x93\xa0\x4a\x58\xb2\x3b\x0e\xa2\xc8\xc4\xbd\xc8\x1a\x96\x03\x2f\xb2\xaa\x14\x85\x92\x30\xab\xcb\x25\x48\x5e\xdf\x8b\x29\x97\x23\x44\xa3\xe6\x1f\x1a\x2e\x15\xb0\x22\x83\x9a\xcb\xaa\x2c\x24\x07\xb5\xaa\xb8\x86\x84\x4d\x71\x46\xa5\xe4\x2d\x94\x11\x30\x09\x0f\x3c\xcf\xf1\x5f\x5e\x4c\xcb\x8c\xd7\x12\x01\x20\xbc\x8c\xd3\xf3\xac\xac\xa9\xa3\x86\x36\xd2\x2f\x18\x52\x6a\x06\x65\x53\x83\x6c\xaa\xaa\xac\x91\xd2\xaa\x66\x85\xc4\xdf\x88\x99\x60\xb9\xf8\x03\x53\xa2\x2c\x10\xda\xac\xac\x97\x4c\xc9\x34\x0c\xc5\x52\xb7\x88\xc3\x20\x9a\xac\x14\x97\x51\x18\x44\x38\x77\xfe\xa8\xf0\xa7\x46\x43\x14\xf3\xf1\xef\x65\x59\xe0\x8b\xd9\x52\xbf\x17\xa5\xf9\xef\x58\x94\x8d\x12\x39\x3e\x14\x5c\x8d\x17\x4a\x55\xf6\x77\x53\xeb\xd7\x52\xd5\xd3\xb2\xb8\xa7\x9f\xa2\x98\xcb\x28\x0c\x83\x68\x2e\xd4\xa2\x99\xa4\xd3\x72\x39\x9e\x97\xe7\x77\x42\x8d\xf1\x7f\x96\x16\x51\x18\xb0\x62\x55\x4d\x20\x9a\x97\xe5\x3c\xe7\xe9\xbc\xcc\x59\x31\x4f\xcb\x7a\x3e\xae\xea\x52\x95\x93\x66\x36\xd6\xf3\x1f\xdf\x15\xe5\x43\x31\xd6\xad\xa3\x30\xc8\x9a\x5a\x4f\xf2\x84\xae\x6d\x97\x28\x0c\xf8\xb2\x52\xa7\x8c\x4b\xed\xa3\x30\x98\x09\x9e\x67\x4b\x26\xef\x4e\xe8\xed\xf5\x89\xc2\x40\xaa\xba\x99\xaa\x13\xba\xdb\x0e\x51\x18\x28\xb1\xe4\x52\xb1\x65\x75\x42\x77\xaf\x4f\x14\x06\x0f\x35\xab\x2a\x5e\xcb\x13\x00\xb4\x5d\x76\x59\x5a\x8b\x3c\x67\xe3\x65\xf3\x18\x75\xbf\x54\x77\xf3\x31\xaf\xeb\xb2\xd6\x92\xb6\x67\x20\x27\x79\xfa\x8d\x15\xbf\x3d\x1d\xf4\x0f\x44\x64\xbd\x3e\x07\x31\x03\xfe\x01\xd2\xab\xb2\x98\x89\x79\x7a\xeb\x56\x42\xc4\xf2\x3c\x82\xa8\x60\x4a\x46\xb0\xd9\x74\x71\xc3\xb7\xe7\xa2\xd4\xff\xa6\x73\x94\x70\x04\xc5\x8b\x6c\xb3\x39\x0a\xea\xbc\xae\xa6\x16\xea\x0e\x9e\xfa\xe3\xe0\x97\xf1\x92\x2b\x96\x31\xc5\xb6\x07\x3d\x7a\x48\x84\xdf\xae\xf8\x81\xf5\xe5\x1a\x58\x74\xbc\xb1\x70\xed\x9e\x00\x00\x9b\x47\x47\x91\xa5\x25\x36\xfe\x3a\x61\x08\x6c\xde\xc1\x31\x09\xc3\xf0\x9e\xd5\x10\x87\xc1\x0f\x70\x09\xb3\xa5\x4a\xdf\x54\xb5\x28\x94\x79\xd6\x0a\x2c\xbd\x2a\x97\x15\xab\xb9\x79\x45\xda\x27\x7d\xaa\x4a\x61\xde\x74\xa6\x99\xbe\xe4\x0f\x6f\x78\x7d\xcf\x6b\xf3\xd1\x68\xb3\xf4\x65\x59\x5d\xe5\xa5\x6c\xdf\xa6\x57\x65\xb5\x32\x0f\x46\x78\xd3\xef\x6b\x56\x85\xc1\x78\x0c\xc4\x4f\x2b\x86\x46\xc7\x63\x53\xad\x92\xd2\xa7\x85\xee\xd7\x2a\x99\xf4\x39\xfd\xc4\xd7\xa4\x3e\xd2\x6b\xfc\x17\x5f\xd8\x25\x9d\xbe\xd1\x3f\xf0\x95\xb7\x4c\xd3\x5b\xfb\x1b\x3f\xb4\xcb\x0f\x5b\x8b\x62\xfe\x5b\x96\x37\x7a\xde\x9e\x5e\x49\xbf\xc2\xdf\x2f\x98\xbc\x0b\x93\x30\x1c\x9f\x1d\xf5\x07\xd7\x76\x4f\x02\xfb\xea\xf0\xdf\x58\xef\xa0\xdf\x16\xc0\x70\xbf\xb9\xe7\xf5\x08\x84\xfa\x5c\x42\x23\xf9\xac\xc9\xf5\x36\x35\x6b\x8a\x29\x52\x41\x82\x5a\x30\x05\x05\xc7\x5d\xaa\x84\xb2\xd2\xb6\x01\x94\xd8\xb7\xe2\xf5\xb9\xdd\x06\x10\xe0\x84\x49\x21\x53\xf8\xaa\xac\x81\x3f\xb2\x65\x95\xf3\x11\xac\xca\x06\x96\x62\xbe\x50\x50\x31\x89\x5b\xa4\x87\xb0\x2a\x81\xb9\x81\xcc\x38\x55\x5d\x66\xcd\x94\x4b\x04\xc7\x0a\x2d\x01\xe9\x37\xac\xc8\x72\xc4\xf1\x41\xa8\x05\x70\x36\x5d\xd0\x4e\x0f\xb1\x1d\x3d\x81\x07\x51\xf3\x0c\x9a\x0a\x91\x64\x20\x2b\x3e\x15\x33\x31\x85\x8a\xa9\x45\x0a\xf1\xb7\x0a\x01\x0a\x09\x55\x5d\x4e\xd8\x24\x5f\x01\x83\xa5\x90\xca\x58\x09\x90\x71\x29\xe6\x05\x76\x15\xc5\x7d\x79\x87\xdb\x3d\x07\x14\x36\x31\xe5\xce\xaa\xd0\x28\x72\x84\xd3\xce\xc0\xc8\x00\x88\x96\x92\x69\x12\x8e\xc7\x8e\xba\xd3\x5c\xf0\x42\x75\xa9\xab\x4a\x98\x96\x79\xce\xa7\xca\x33\x50\xf2\x15\x4c\xcb\xc2\x80\xe3\x99\x67\xae\x88\x02\x27\x84\x00\xa5\x28\xe6\xb9\x31\x4c\x0c\xad\x04\x52\x78\xc9\x11\x0f\x1f\x5f\x51\x28\x5e\xcf\xd8\x94\x0f\x71\x02\x81\xb9\xc1\xfa\x8d\xa4\x06\x07\x6b\xad\x12\x6d\x2c\xe0\x02\xbc\xa2\xf9\x4c\xcb\xe5\x44\x14\x9a\x4e\x4b\x42\xd1\x63\xec\x88\x4c\x29\xd5\xd4\x05\x08\x85\x74\x45\x04\xa7\x2c\xcf\x79\x8d\x16\x13\xb3\xc8\xa6\xa1\x9e\xce\x0e\x41\xd7\x61\xf0\xb6\x70\xf3\xe3\xd9\x7a\x9d\xda\x1e\xc6\x04\x24\x4d\xb0\x5e\xd7\xac\x98\x73\xf8\x54\xc0\xc5\x25\xb8\x36\x2f\x0c\xcb\x50\x8f\xad\xd7\x9f\x0a\xea\x63\x47\x01\x00\x37\xd5\xd4\xbe\x0c\xd7\x6b\xa3\x5c\x8d\x75\x69\x5f\xcb\xc3\x43\xa0\x00\x43\xec\x4d\x22\x01\x6f\xd0\x78\xaa\x1e\x81\xac\x34\xdc\x1a\xf0\xdf\x11\x0a\xcc\xd9\x7a\xfd\x75\x89\x88\xc1\xa7\x22\x7d\x6d\x4c\xd0\xdb\x55\x65\x27\x98\x40\xbc\xd5\xc2\x18\xa6\x5e\x93\x91\x51\x70\x09\xac\xc3\xc0\xda\xad\xfa\x1d\x22\xca\xd3\x9e\x99\x23\x32\x38\x78\x12\x06\xb8\x59\xd5\x35\x7c\x72\x09\x85\xc8\x11\x42\x40\xfc\x2a\x44\xae\x81\x84\xc1\x26\xb4\xef\x2c\xf4\xf4\x20\x4e\xc9\x08\xe1\x85\x1b\x47\x4e\x24\xe6\x0b\x76\xe7\x91\x27\x5c\xaf\xf5\x42\xfe\x54\x71\x44\x34\xdd\x60\xe3\x73\xf0\xa9\xfc\xa9\xe2\x43\x84\x46\x58\x7d\x33\x93\x48\x74\xc5\x7b\xc5\x24\xd9\x65\x37\xac\xdd\xe4\x90\x7f\xfd\x5c\xb2\x8e\x81\x5b\x51\xeb\x4d\x02\xb1\x25\x86\xff\x5a\x53\xcc\x63\x47\x50\xf3\x0f\x38\x11\x82\x90\xc6\x87\xb8\x1d\x06\xc1\xbd\xe3\x9d\xf4\x79\x87\xa8\x69\x54\x92\x30\xe8\xe1\xda\x2e\xdb\x90\x6f\xf6\xed\xbd\x61\x47\x80\x62\xdd\xee\xcd\x3e\x6f\x70\x73\x7c\x9a\xe7\xd7\x8f\x53\x5e\x29\xbd\x4f\x49\xa3\x62\x1d\xa5\xf4\x0e\x85\x2e\x0b\xad\x4d\xfb\x41\x82\x66\x23\x43\x28\x9e\x4d\xe0\x48\xfd\x42\x64\x59\xce\x1f\x58\x6d\xbc\xc0\xb7\xd2\xfa\x85\xe8\x04\x55\x55\xbe\x42\x15\x83\x6a\x53\x21\xf0\xa5\x6b\xad\xbd\x2e\x7e\xcf\xeb\x95\x63\x1b\xae\x17\xd4\x20\xe4\xb6\x69\x78\xaf\x2a\xdc\x35\x58\x9e\xaf\x46\xae\x9d\x84\x29\x2b\x60\xc2\xf5\x5e\xc3\x33\xec\x36\x59\x41\x81\x64\x57\x25\xbe\xe7\x8f\xd3\xbc\xc9\x78\x66\xbc\xc0\x09\x47\x14\x70\xce\x15\xcf\xd2\x1d\x6a\xc4\x2d\x4e\x23\x88\xde\x28\xa6\x1a\x19\x8d\x20\xba\x11\xc5\x3c\x4a\xdc\xba\x3f\x73\x04\x49\x06\xfb\x3b\x0c\x3d\xaa\x8c\x5a\x6c\xd2\x34\x95\xda\x2c\xd0\xc2\x23\x0a\x7a\x7d\x71\x09\x4b\x56\xbd\x33\x9f\xde\x1b\xf2\xaf\x37\x28\x5e\xdb\x0b\xa6\x67\xb5\x04\x41\x10\x79\x62\x14\x5d\xc0\x7a\x33\x0a\x03\xdf\x8c\xdc\x84\x61\x80\x7b\xfd\x0f\x88\x0a\x82\x31\x20\x1d\x5a\x38\x92\x98\xc1\x0f\x23\x28\xef\xf0\xb3\x45\xec\x1d\x7f\x7c\xff\x25\x7c\x52\xde\x21\xb6\x41\x50\xb1\x42\x4c\xe3\xd6\xc2\x9b\xc5\xd1\xb5\x05\x61\xe7\x0d\x9f\x7f\x26\x3f\x87\xac\xe4\x12\x8a\x52\x01\x7f\x14\x52\x7d\x09\x92\x73\x9f\xf1\xce\xa7\xd4\x26\x3d\x22\x95\x24\x24\xcf\x19\xcf\xb9\xe2\xb1\xc5\x40\x7f\x6b\x27\x20\x8a\x69\x8b\xbe\x6d\x03\xc7\x13\x4a\xcc\x34\x88\xcb\x4b\xe8\x90\x4c\x43\x08\x82\x5e\x55\x0a\x97\x1e\xe6\x71\x6f\x13\xc4\x3d\xd8\x6c\x93\xdc\x2c\xbb\xef\xd8\x84\xe7\x3c\x6b\xa5\xc1\x84\x50\xe6\x5c\x59\xd9\x45\x79\x77\xd4\xd3\x22\xfc\xb0\xe0\x85\xfb\x5a\x7a\xe2\x4a\xc0\x8c\xd4\x8d\xcc\x2a\xa3\x85\xd0\x98\xc6\x60\xe2\x32\xcc\x04\x77\xc4\x14\x8d\x9a\x5a\x4c\xb5\x99\xd5\x4e\x03\x1e\x16\x62\xba\xd0\x6b\x48\xf2\xa2\x0f\x05\xda\xc9\xa9\xb7\xb5\x63\xca\x9a\xf6\xf1\xdd\x59\xe1\x22\x89\x8d\x00\x8f\x76\xb5\x70\x8f\x62\x0e\x87\xe6\xf5\xd1\xba\x69\x07\xa9\x11\xcd\x53\x53\xbc\xe6\x53\x2e\xee\x51\x35\x71\x33\xc5\x72\xd6\x99\x77\x0a\x6f\x38\x77\x60\x3c\x28\xfa\x83\x35\x44\x09\xe1\xeb\x47\x44\x14\x25\x32\xe3\x8a\x89\x5c\xa2\x9d\x6c\x97\x13\x02\xb1\xc6\x2e\xcb\x85\x5a\xa5\xfb\x54\x48\x67\xee\xf1\xf2\x27\x50\xf4\x3f\xf5\xcc\x7f\x1c\x3d\xd3\xe9\x36\x82\x93\xd4\xce\xf1\x01\x8a\x63\x5d\xcf\xaf\x5f\xdf\x5c\xe1\x3c\x79\x7d\xb2\xef\x89\x66\x9c\xd7\x1d\xc3\xb5\xb2\x35\x06\x1c\x7f\x80\xdd\x33\x91\xb3\x49\xce\x8d\xdb\x30\x7f\x7d\x73\x05\x03\xce\x00\x2d\xa7\x2e\x64\xe7\x21\xca\x56\x37\x8c\xa0\xd4\xb6\x83\xc4\xf5\xd0\x89\xc5\x68\xf1\xe6\xb5\x31\x2d\x92\xa1\x81\x90\x5d\xd2\x6b\x28\x51\x26\xde\xbd\x1f\x86\x84\xd2\xdb\xf7\xf5\x19\x9f\x95\x35\x8f\x11\xdb\x17\x14\x53\xba\x2d\xc9\xfa\x4c\x46\xc8\xb5\xad\x71\x2e\xd1\x70\xe2\x45\x16\x77\x5e\xbb\xf9\xa4\x69\x9a\xe8\x40\xc7\x7a\x0d\xb7\xe5\x77\xe5\x03\xaf\x5b\x41\x44\x52\x21\x73\xad\x69\xf8\x04\x31\xc2\x8f\xbc\x5e\xa3\x9b\x74\x50\x7a\x17\xc6\x0d\xf7\x24\xee\x02\xba\xb3\x72\x11\x9a\x18\xe5\xd9\x51\xbe\x4f\x48\xd1\x12\x09\x9e\xeb\x40\x39\x4e\xdf\x6b\x41\xc6\xb1\x6e\x70\x5d\xf4\x36\x20\x57\x07\x5b\x74\x08\x91\xa6\x29\x76\x43\xd2\x6d\xc9\x3e\xea\xde\x76\xbe\xdb\x9e\xb3\xb3\xcd\xfb\xd9\xed\xec\x7c\xb3\xc9\x79\x70\x7e\x76\x6f\x75\x97\xc6\x00\x5b\x44\xa6\x68\x88\x67\xce\x93\x93\x45\x61\x0a\x54\xb4\x1e\x8a\xaa\x6c\x67\x7b\xfc\x44\x0f\x62\xaa\x97\x5a\x2c\xe1\xac\x1d\x2a\x69\xc1\x1f\xf0\x7e\xd1\x39\xfa\x79\xdd\xdf\x1f\xd0\x43\xaa\x3c\x07\x6a\x97\x90\x7a\x12\x5a\x96\x7c\x8f\xea\x44\x37\xb8\xfa\x48\x0f\x98\x08\x6c\x04\xfe\x30\x75\xc7\x63\xd8\xb7\x36\x40\xa0\x2e\x74\x22\xa1\x03\xc4\xa9\xe9\x40\x2d\xbe\x42\xf6\xe8\x20\x11\x26\x74\x78\xad\xa4\x89\x21\x91\xfe\xb4\xca\xc1\x01\x76\xae\x2e\x46\x72\x30\x50\x55\x9f\x67\xe5\x92\x89\x62\x5f\xe3\x14\x6e\x6a\xb1\x64\xb5\xc8\x57\x36\xb6\xe5\x07\xc2\x8c\x3a\xde\x37\x8f\xf8\x87\x5d\xd9\xc0\xb9\xbc\xe6\x1f\x5a\x59\xd4\x3e\xb7\xf7\xd4\x8d\x7a\x68\x2f\x9b\xfa\x1c\xe3\x65\x3b\x4e\x7e\xd8\xc3\xa6\xeb\xe2\x68\x36\xed\xd5\x50\xbd\x7c\x32\x3d\x6c\x93\x21\x46\x1d\x66\x01\x0d\xa1\x19\xb6\x87\xad\x55\xbe\x3a\x8a\x4f\x7b\x27\xd2\xc7\xa8\xbe\x30\xc8\x3e\x4e\xc9\x0a\x59\x65\x7b\x1d\xb1\x8e\x3c\x66\xc9\xaa\x8f\x5b\xdf\xf0\x1c\x63\xea\xa1\x11\xb4\xde\x5d\xb4\x5f\xff\x2c\x33\xb0\x39\x9c\xf4\xc5\xf3\x64\xbb\x01\xe2\x8b\x5a\xf4\x6e\x04\xf7\xad\xb9\xb7\x74\x76\xea\x7d\x27\xfe\xa2\x53\xd1\x1c\xee\xf8\x4a\xb3\x3b\x43\x83\x76\x52\xaa\x05\xd2\xd8\x8e\x42\x49\x5c\x88\xef\x12\xf2\x3d\xb0\x69\x9e\x43\x8e\xfc\x22\x28\x8c\x3c\x2e\x1d\x6b\xbd\x62\x45\x59\x88\x29\xcb\xbf\xe1\x2c\xe3\xf5\xaf\xf9\xca\x3a\x26\x38\x90\x2c\x29\x02\xac\xc8\xcf\xb3\x20\xa6\x53\x6e\x03\x1f\x5c\xa8\x05\xaf\x69\x64\xfc\x8e\xa4\xb8\x74\x73\xfd\x5e\xa8\x85\x4e\x42\x20\x89\x46\x7a\xae\xef\xbe\x78\x9f\x1c\x6c\x38\x80\x5d\x7c\x97\xb4\x10\xc8\xe4\x27\xf6\x4d\xd5\xa3\xde\x81\xad\x01\xb8\xff\x4f\xf3\xd1\x84\x99\x4f\x36\x2a\x5f\xf2\x07\xaf\xb7\x19\x5e\xa7\x1c\x28\x6e\x04\x13\x36\xbd\x43\xf6\xac\xec\x9a\x31\xf1\x79\x9c\x6b\xc1\x75\xba\x23\x85\x6f\x15\xf2\x91\x22\xfd\x24\xae\x62\x22\xd0\x61\xb3\x2c\xa0\x40\xb6\x2a\x21\x13\x2c\x37\xd1\xee\x9c\x29\x5e\xc3\x14\x53\x51\xe8\x81\x73\x1f\xa6\x11\xd0\x0e\x76\x31\x7e\x36\xbb\x67\x6a\xf0\xbd\x2a\x8b\x62\x8f\x65\x6a\x1a\x59\xcb\x34\x1e\x30\x4d\xfd\x25\x87\x06\xc2\x76\xa0\x35\xf0\xde\x56\x77\x73\x5c\x69\x36\xde\xda\xad\xb0\x08\x76\x5d\x1a\x3f\xba\xda\xea\xc0\xe0\x9e\xd5\xce\xfb\xf2\x54\xc7\xae\x1f\x1a\x06\xb8\x5e\xfa\x9a\x5e\xee\xda\x91\x44\x25\x2d\x8e\x48\x18\x72\x33\xcb\xba\x83\x06\x72\x5b\xcf\x21\x36\x0e\x21\x44\x9f\xc9\xf4\x33\x19\xb5\x93\xf3\x5b\x63\xcb\x04\xfd\x26\x0f\x98\x68\x61\x38\x7c\xa2\x7d\xb6\x67\x6b\x9c\x3e\xe7\x87\x8c\xd3\x03\x1a\xce\xc4\xe3\x82\xd6\x78\xc7\xc7\xc4\xd1\x2b\xd6\x8e\xa7\x66\x04\x59\xb2\xed\x2f\xfb\xc3\x2d\x32\xdb\x49\x1e\xb4\xe5\xe1\x9c\x40\x39\x9c\x6d\xdf\x0b\x3f\x31\xe2\x7d\x1f\xb5\xe3\x05\x1b\xab\x88\x51\x01\xe3\xdc\x81\x56\xdb\x4f\x37\x6d\xf6\xec\x99\xcf\xf9\x31\x7b\xe6\xfe\x5d\xf0\x58\xd3\x86\xf6\xa7\x81\x3d\xd3\x28\x0c\x5a\xd1\xcf\xf9\x89\x7b\x26\x4e\xe6\xb5\x46\xe6\xc8\x4d\x13\x9b\x3a\x03\x07\xb7\xf2\x93\xb6\xcd\x2a\x5f\xf5\xed\x9b\x3e\xdb\x7e\xba\xa9\x33\x6c\x91\x5e\x17\x47\x58\xa4\x87\x19\xe2\x19\xa6\x7b\x38\xbc\xd7\x22\xed\x70\x6d\xdf\x3c\xfa\x0d\x1d\x9a\xe2\x71\x2c\x3b\x35\xef\xb3\xdf\x22\x25\x2c\xf4\x4e\x2d\x6f\x4b\xdf\xc8\x31\x2b\xa5\x6f\x97\xa0\x71\x70\x9d\x18\x41\xdd\x03\x25\xbe\xe3\x2b\x09\xef\xde\xdb\xb8\xe0\x01\x78\x47\xe5\xcd\x96\x19\x9c\x1d\x32\xb0\xf4\xbe\x51\x31\x51\xb7\x83\x87\x81\x8d\x12\xde\xb5\x66\x97\x46\x6f\x4d\xc1\xb3\x7b\x1b\x21\x9c\xaa\xc7\x54\xd3\x24\xbe\x4b\x52\x8a\x86\x26\x5f\x82\x8d\x14\x06\x06\xb0\x0b\x97\xe8\x47\x63\xe4\xb8\xe8\x18\x2a\x4f\x84\xa9\xbf\x75\x2c\xba\xb3\x65\x86\x51\x37\x3b\x81\x5f\x95\xa2\x88\xcf\x96\xd9\xa8\x7d\x75\x83\x7d\x62\xdd\x13\x63\x2e\x89\x05\x47\x94\x41\x8b\x87\x42\x6e\x86\x93\xc7\x06\xd4\xbe\xb9\xbd\xbd\x21\x1f\xc4\xbe\x3b\xfc\x37\x0e\x43\x9d\xcd\x37\x54\x2e\xb4\x78\xc1\x25\x44\xac\xaa\x72\x31\xd5\xf5\x2b\xba\x24\xf0\x4b\x98\x2e\x58\x2d\xb9\xba\x6c\xd4\xec\xfc\x97\x91\x8b\xc3\xe1\xa8\x14\x55\xa0\xa4\x3d\x0a\x16\x79\xd0\x46\xd1\x1e\x8e\xcf\x21\xb0\xb2\x80\xaa\xe6\x19\x9f\x89\x82\x67\xba\xf4\x42\xd2\x9a\xdb\x1a\xe6\x60\x54\xae\x5b\xf9\xd3\x8d\xca\xf9\x35\x21\xd6\xce\x11\x33\x48\x35\x7c\xed\x12\x78\x7a\x6b\x2b\x42\x84\xb2\xf3\xee\xfd\x30\x74\xcd\xff\xbe\xcf\x14\xaa\x33\x63\xa0\xcd\x2b\x3b\x91\xba\xfe\x4e\xd7\xa8\xc9\x8d\xba\xa9\x63\xee\x3d\x0c\x77\x79\x3a\x53\xbc\x8e\xb7\xbf\xa8\xab\x96\xb5\xb1\xc7\xe6\x44\x03\xda\x9d\xe5\x51\x71\x42\x0a\x20\xe9\x98\xe0\x12\x09\xb3\x6c\x1e\xd1\xf4\x7a\x5d\x36\x88\x43\x12\x7a\x96\x04\xa5\x39\x2e\x2e\x07\xc9\xec\x9a\x4e\xb0\xa0\xa4\x98\x23\x40\xea\x96\x3e\x33\xaf\x28\x08\xbe\xb4\xfd\x74\x34\x9b\x9a\x63\xe9\xef\x04\xfe\x37\xdc\x96\x6f\xb1\xb4\x71\xb3\x89\x92\xf4\x86\xa9\x45\xa7\x0d\xbe\xb8\xe5\xcb\x0a\x6d\x6d\xdd\xc2\x8a\xd3\x40\xa1\x98\x0e\x43\x76\xe3\x90\x84\x51\x4f\x30\x92\xec\x39\x9c\x9e\x37\xa4\x4e\xc3\xb8\xed\xc1\x34\x34\x1c\xc5\x86\x5f\x9b\x6c\x9a\xdd\x86\xcd\xe7\xbe\x90\x64\xa0\x13\x0c\x6d\xc8\xce\xff\x49\x4a\x63\x49\x46\x95\x2f\x34\x26\x6d\xa7\xbd\x11\x63\x16\xd8\x04\x9c\x1d\xf1\x7b\xfc\x5e\x8f\xd0\xa3\xc9\xf8\x8c\x35\xb9\xc2\xdd\xce\x08\x08\xae\x48\x1d\xb0\x2c\x67\xb0\xad\x0b\x46\xc0\x60\x52\x66\xda\xa9\x44\xdd\x60\x5c\x02\x74\x2d\x23\x3d\x4e\xe4\xbc\xd1\x7b\xd4\xb2\x08\x4a\xbf\x4f\x35\x76\x71\x62\x7c\x1e\x06\x52\x27\xc5\x01\xe9\x81\xa0\xfe\xdb\x17\x5f\xa4\xf0\x2d\x25\xd0\xb0\xa5\x1f\x69\x35\xeb\x86\xd7\xba\xe6\x1a\x5b\x54\x75\x79\x2f\xd0\x5d\x5e\xe8\x2f\x58\x4f\x90\xe7\x98\xa5\xd7\xd8\x9a\xbc\x25\xb6\x6b\x6d\x32\x1f\x34\x42\xf1\xa0\xe3\x2c\xd2\x17\xac\x96\x0b\xa6\x6b\xc5\x2c\xfe\x4b\xf3\x0a\x13\xfd\xb2\x99\x4e\x39\xcf\xa4\xf1\xcf\x7e\xf5\xe6\xd5\x4b\x2a\xdd\xce\x6c\x9d\xb5\x75\xf0\xf4\x5c\x1d\x3a\x98\x43\x1d\x9e\x96\xa9\x0b\xc0\xca\xf9\x7a\x64\xdd\x46\x37\xb3\xf6\x63\x07\x1a\x88\x42\x2a\xce\x32\xa2\xd9\x08\x9a\x22\xe7\x52\xa2\x3f\x2f\xa8\xe0\x0e\x99\x86\x68\x69\xa4\xa5\x84\xb2\xd6\x89\x73\xc4\xce\x52\x1b\x39\x8d\x78\xa8\x96\x44\x10\xff\xe2\xf1\x31\x21\xa5\xeb\x6b\x9c\x3e\xc3\xc6\x95\xac\x8c\xe0\xc1\x54\xda\x75\xc5\x4a\xdb\xa0\x28\x25\x23\xf8\x01\x97\xb3\x4f\x62\xa3\xce\x30\xed\x59\xf1\x7a\xad\xa5\xe2\x02\x69\x63\x05\x04\x2d\x1b\x31\xb3\xd4\x47\x86\x98\x8d\x1b\x9b\xc4\x5d\x5e\xb5\xfb\xb6\x98\x01\x7e\x7a\xa6\x87\xa4\xae\xd7\x26\xa2\xeb\x00\xd9\x7e\xc8\xbe\x38\xf9\xd2\x8e\x80\xcd\x2e\xbd\x3d\x1c\xd1\x86\x4b\x07\xce\x06\x25\x82\x87\xd4\x88\x61\x9c\xa4\x6f\xb8\x8a\x23\x52\xac\xe7\xb7\xab\x8a\x47\x23\x7f\x0b\x35\x13\x58\x58\xa1\xf5\xf1\xef\xaa\x1b\x2b\xd7\xed\x3c\xd0\x8a\xf1\x4c\x18\x0b\x83\x5a\xca\x58\x13\x36\xd8\xc6\xe5\x6e\xd4\xd3\x32\xfd\x9a\xab\xf8\xce\xa6\x27\x37\x61\xa0\x99\x7f\x61\x6a\x63\x53\x23\x5e\xdf\xa2\x29\x5a\xb0\xdc\xdb\x74\x34\xee\x72\xba\x07\x6b\x4f\x6c\x0d\xe2\x4f\x9e\x80\x9c\x12\x44\x7c\x1d\x27\xf0\x3f\xfd\x51\x5e\xfd\x5a\x63\xad\xc7\xbf\xdc\x6e\x4a\xb4\xd5\x72\x43\x93\xc2\x86\x89\x7b\x19\x23\x43\x12\x54\x71\xad\x68\x1a\x85\x5b\xc7\x93\x66\x06\xef\xde\x63\x45\x70\x42\xcb\x6b\x1d\x6a\xf3\xf0\x01\x7c\x29\x73\xc1\x7a\x2b\x8a\x6f\x0b\x62\x3e\x42\x18\xc1\x93\x87\xe4\xcb\xed\x60\xbe\x31\x8c\xa4\xf8\x03\x87\x4b\xf8\xe5\x2f\xfe\xc7\x7f\x37\x52\x96\xf3\x02\xfb\xe0\x0c\xf5\x37\x6c\x1a\x20\x1a\x97\x30\x69\x66\xef\x2e\xf0\xe5\x7b\xda\x59\x49\x3d\x63\x79\x8b\x26\xed\x2c\x8e\xdc\x6a\xc3\x49\xe9\x8c\xf3\x05\xc6\xe1\x70\x7d\x56\x68\x61\x41\x51\x16\xe7\x28\x7a\xce\x77\xc0\x86\xd1\x08\x81\x53\x36\x99\xa0\x52\x85\xf2\x4b\xfe\x10\x3f\x98\xa5\xa3\x69\xa4\xd5\xb6\x3f\x77\x5b\xdf\xb0\x0e\x03\xdd\x0a\x9f\x51\xa5\xfd\x0e\x47\xb9\x20\x9d\xfd\x3b\xda\x41\x90\x69\xd4\x8a\x29\x21\x67\x02\x0f\xb2\x2c\xb8\x53\xc0\x5a\x77\xb7\xdc\xf3\xf2\x3e\x12\x84\x3e\x73\x62\x0f\xde\x1c\x53\x58\x9e\x9a\xac\x98\x37\xa8\x43\x55\xa3\x85\x87\x25\xec\x50\x38\x52\x18\x58\x75\x0f\xe0\x97\x1d\x38\x2f\xc0\xca\x48\xbc\x68\x81\x26\x9e\x9a\x8d\x13\xe8\x16\xf0\x2d\xd2\x76\x84\x81\xde\xed\xca\xc3\x97\xb4\xbc\x3a\x20\x08\xa9\xb0\x93\x08\xd8\x0e\x6a\x1c\x34\x83\xbc\x98\xd9\x01\x3b\xc8\xc5\x41\xf6\x1a\x1c\xdb\x7e\xb5\xc6\xbe\x3f\xd3\xa3\x13\xbf\xe6\xe8\x11\xf6\x41\xfd\x78\x4e\xdb\x9b\xef\x32\xdb\x71\x6e\x58\xcd\x0b\x45\x6e\xa8\x93\x53\x5d\x16\x87\x7b\x0c\x62\x65\xdf\x6a\xc8\x28\xc1\x87\x12\x09\x81\x17\x15\xd9\x3b\xad\x5e\x37\x1b\xce\x68\x0f\xd2\x4d\x86\x5d\xec\x20\xe3\x33\x5e\x43\x9d\xa2\x62\x4f\xaf\x30\xe2\x8a\x0a\x48\x6b\x0c\x74\xbf\x5b\x8f\x7b\x6b\xae\x04\x19\x95\x3b\xda\x5d\xb8\xe0\x5d\xc6\x90\x4e\x13\xbc\xe6\x2c\x7b\x9a\xe7\xb1\x01\x7e\x5c\xc5\xa5\x3d\x62\x30\xc3\x3d\x71\x04\x11\x69\x82\x1a\xf7\x77\x6b\x63\xe1\xcc\x2c\x39\x23\x52\xe6\x5b\x8a\xe8\x0b\x3d\xb7\xa0\xb1\x4a\x0d\x7d\xaf\x8b\x4b\x70\x47\x6a\x5a\x75\x47\xa6\xa5\x6e\x1e\x3c\xcd\xf3\xf2\xe1\x86\xd5\x4a\xb0\x1c\x03\x78\xaa\x6e\xc8\x0e\x7d\x2e\xe4\x94\xd5\xd9\xdb\x42\x1f\x7f\xba\x68\xbf\xd8\x52\x14\x9c\xfa\x25\xf8\x03\xee\xa8\x54\x4c\x92\xee\x28\xd5\x7e\xb5\x3a\xac\x58\x7b\x55\x2b\xa1\xd1\x21\xa6\x5b\xb0\xeb\x1e\xb2\x12\xf5\x3e\x4a\xe7\x1a\x82\x04\xde\x6e\xf6\x8c\x65\x24\x0e\xf4\x0d\x11\x68\xd1\x72\x01\x02\x74\x62\x6f\x58\xcd\x96\xd2\x7a\x48\xbf\x65\xb5\x8c\x6b\xe4\x21\x1e\x31\x69\xbf\x63\x38\xe1\x43\xc3\xeb\x55\xdb\xbc\x4e\xdf\xbe\xfe\x2e\xfd\x0d\xbe\x8c\x6d\x07\xaf\x49\xe8\xbb\x4d\xa6\xca\xf6\xe2\xb2\x95\x5a\x7d\x1a\x84\x7c\x26\x5d\xbb\x53\xd8\x66\xe9\x77\xa5\xb1\xe5\x21\x42\x6a\x44\xa6\x0d\x86\x74\x35\x94\xf4\x6b\x5e\xe8\x41\x1d\x37\xd1\xa1\xea\x8f\x24\xef\x47\xe1\x55\xc1\xcb\xd9\x0e\x1e\xfc\xc3\x2e\x1e\x7a\x5a\x3f\x05\x11\xb7\xac\x9e\xd4\xfc\x43\x9b\x79\x27\x3f\x49\x07\xad\x6d\xd3\x36\x18\xd9\xe3\x83\xf5\x6a\xcc\xa1\x9c\xab\xd1\x8f\xd2\x3a\x24\x6e\x5f\x67\x52\xeb\xcf\x6d\x07\xc4\xb8\x63\xf5\x09\xf9\xd4\x1e\x04\xfb\x74\x5f\xaf\xf9\x3d\x94\x62\x75\x26\xd2\x90\xa2\x78\xb1\xa3\x26\xb6\x95\x84\xd3\x05\x6f\x25\xbf\x41\x05\x83\xfa\x52\xfa\xea\xe3\xad\xe4\xd7\x45\xb3\x7c\xd9\x2c\x27\xbc\x96\x17\xed\x87\xeb\xa5\x50\x6f\x8b\xaa\xac\x1a\xf4\xc2\x33\xa7\x56\x36\x61\x47\x9f\xb6\xb8\x59\x74\x5c\xdd\x7c\x1a\x6b\x54\xd3\x17\x5c\x4a\x36\xe7\xc9\xbe\x2a\x0c\x2b\x06\x3f\x8c\x48\x5b\x39\x73\x52\x5b\x52\x5e\x2b\x3f\x25\xec\xca\x2c\x25\x19\x03\x7d\x61\x9b\xfe\xd0\xe5\xce\x2e\x34\x94\x1b\x6e\xcd\x7b\x6b\xad\x6b\x65\xb7\x2f\x1b\x8c\x80\x77\x33\xc1\x0b\x26\x61\xc1\x32\xd3\x77\x28\xf7\xab\x33\x8e\x19\x56\x93\xa2\x8b\x58\xb4\xf2\xed\x9f\x43\x56\x0b\x6e\xa0\x18\x43\x4a\xa6\x76\xd3\x77\x29\x67\x14\xe6\x79\x5d\x4d\x5d\x24\xd3\xa2\x43\x7e\x2f\x06\x00\x64\x69\x80\x74\x13\xcc\x7b\x53\xcb\x7b\x13\xc6\x77\x23\x47\x21\xcf\x99\xd9\xdb\x65\x0b\x7f\x9d\x5b\xde\x85\x81\xca\x0b\xc9\xdd\x14\xbc\x3d\xef\x35\x5d\xa0\x2e\x4b\xf5\x17\x96\xcb\x12\x58\x96\xd1\x1a\xd6\xda\x1e\x9a\x3a\x0f\xf7\x67\xb8\x23\x6a\x7a\x8e\xa7\xa2\x47\xa4\xc4\x6f\x98\x5a\x24\x87\x3a\x3a\xae\xe0\x29\x01\x94\x39\x54\x22\x51\xf2\xd1\xa9\x70\x04\x41\x79\x1a\xfb\xee\x84\x54\xb8\xd7\xbb\x8d\xea\xf6\x64\xc2\x0b\xc0\x96\xa4\xbd\x20\x17\xf7\x68\xb5\x32\x45\x54\x5b\x96\x4a\x87\x34\x30\x62\xc1\x0a\x3c\x54\xf6\x3d\x9e\x10\xa8\xcc\xf1\x35\xf3\x0e\xf5\xe4\xb4\x5c\x72\x73\xaa\xa2\x1d\x24\x13\x72\x8a\x97\x02\xac\x40\xae\xa4\xe2\xcb\x11\x48\x5d\xb6\x9e\x8b\x3b\x9e\xaf\xac\xd0\xa1\x18\x41\xb4\x28\xa5\xba\x40\x89\x8e\x48\x81\x76\x66\x10\xbb\xa1\x6c\xe5\xf3\x60\xb0\xf8\xf4\x44\xb9\x98\xc1\x27\x56\xe4\xbe\x61\xf2\xa6\xe6\x33\xf1\xe8\x46\x1c\x41\x84\xab\x32\x32\x4e\xbb\xc3\xe3\xd2\xbc\xbe\x18\x8f\x23\xf8\x2f\x8e\x12\x28\x95\x41\xe3\xb4\x60\x53\xe7\xe9\x0d\x7a\x84\x0e\xda\xd1\x25\x67\x68\x5c\x34\x21\x1d\x2b\x46\x2b\xa7\xc7\xe3\xa0\x54\xae\x39\x7f\x11\xbd\x2c\x0d\x23\xbd\x88\xba\x39\x09\xa0\x09\x62\xe2\x4f\x08\xe8\xa1\xac\xef\x46\x60\xa2\xf4\x40\x3b\x3d\x3a\x7e\x78\x40\xb0\x36\xf6\xa6\xf9\x2a\x90\x84\x51\x1b\x29\xc6\x5a\xb6\xe0\x78\x5f\x28\x58\xaf\x41\xcc\x76\x9c\x1f\x42\x1a\xbf\xea\xa0\xa3\x35\x36\x10\x92\x28\x32\xfe\xb8\xdb\xe3\x0b\xdb\x47\xdb\xf8\xbb\x5e\x85\x9d\x71\x5f\xcd\x01\x5a\x3d\xfa\xbf\xc1\x9e\x7e\x3d\x47\x8d\xbd\x02\x04\xaa\x70\x1f\x8c\x54\x93\x05\x19\x4c\xcb\x6a\xf5\xf6\xf5\x77\x71\x33\x02\xbf\xfd\x33\x26\x39\xaa\x0f\x8c\x58\xdb\xa6\xad\x75\xb0\x8b\x55\xd7\x2e\xed\x86\xa5\x89\x32\x3d\xb5\x06\x3b\x85\x04\xc1\x76\x2d\x81\xb5\x6d\x5b\x6e\x76\x7e\xb7\x3f\x9d\xba\xea\x2d\x2a\xd8\xcb\x77\x38\xff\x6b\x71\x7e\x28\x76\x8f\x46\xcb\x1e\x91\xa0\x3a\x8c\xbd\xf3\xf5\x8a\x1a\xb4\xe6\xb1\x7c\x9c\x30\xc9\xe1\x0c\xd7\xf0\xdb\xd7\xdf\x8d\x74\x3e\x8b\xb6\xd6\xc4\xbd\xc6\xf5\x5b\xa0\x5d\x70\x71\x09\x67\xd8\xc1\x3c\xea\xdc\x05\xb9\x07\x8e\x9c\x4f\xf0\x0b\x05\x18\xae\xd4\xa3\xcd\xc6\xbe\x41\xfb\x76\xaa\x6b\xf2\x9b\x9a\x42\x35\x28\x8e\x76\xe1\xaa\x12\xaa\x26\xcf\xf5\x7b\xda\xe7\x78\x86\x16\x86\x84\xb2\xc1\xad\xdb\x9a\xaf\xb4\x2d\xe9\xf0\x0e\x6d\x7b\x4b\x6b\xc2\xfa\x0e\x28\xda\x0a\x14\xee\x48\x01\x5e\x96\x8a\xce\x13\x23\x48\x84\xa5\x35\xc5\x82\xdd\x73\xb0\xf7\x84\xec\x37\x49\xf4\x38\x13\x9d\x20\xa3\x23\x75\xfa\xf4\x10\x6a\x7e\x8b\x1a\x9e\xce\xa6\x94\x02\xa3\x18\x37\x29\x7e\xb5\xe0\x2b\x17\x1b\x77\xd9\x44\xff\xc0\x1f\xaf\xdd\x86\x4b\xd9\xec\x2e\xed\x4c\x06\xdb\x3b\xda\x32\xbc\x1f\xf8\x11\x9f\x9e\x46\x94\xe4\xdb\x73\x20\xf4\x08\xeb\xf0\x67\xcb\x61\x3b\x8b\x87\x82\xc3\x7e\xea\xda\xed\x19\x26\xd5\x9c\xa0\x54\x21\xad\x51\xa3\x0c\x55\xe4\x1c\x54\xd8\xdb\x21\xa9\x5e\x65\xb3\x37\x22\xb5\xed\x5f\x51\x38\xca\x58\x63\xdb\x21\x29\x1b\xa5\xa1\x61\x6c\x6f\x13\x9e\x69\x7d\x9f\xed\x90\x14\xbd\x46\xc7\xd7\x98\x79\x94\x98\x71\x5f\xd0\xa0\x66\x3a\x04\xfb\x5f\xbf\xf8\xc2\xcf\x50\x8d\xe0\x81\xd2\x30\x3a\xe0\x59\xd5\x1c\x8d\x1c\xa6\xd7\x03\x2b\x34\x2c\x6d\x14\x68\x41\x65\x4a\xe1\x8d\x0f\xb8\x7e\xcc\x2c\xfc\xf5\x47\x01\x6c\x58\x1a\x17\xa6\xc5\xd1\x22\x71\x30\x64\x66\x2b\x52\x7a\x42\x66\xbd\x64\xdf\x1f\x31\x33\x83\x9e\x1e\x32\x3b\x25\x02\x76\x89\x4d\xd2\xeb\x57\x5f\x0d\x06\xc1\x30\x8a\xdd\xc6\xc6\x51\x30\x34\x09\x00\xe9\xb8\xf2\xa3\x5e\x5b\xe6\x4f\x1f\x2c\x0c\xa8\xf5\xc4\xd3\x1c\x50\x02\x67\xe0\xd5\x5e\x2e\x02\x9d\xc8\xdd\xac\xc5\xd0\x10\xb3\x78\x3b\x13\x91\x8c\x20\xf2\x64\xe6\x02\x3e\xff\x2c\xfb\x3c\x1a\x75\xc6\x70\x63\xa3\x39\x82\x13\x3e\x24\xcd\xe1\xc9\x71\xbd\xc1\xb0\xde\x50\x54\x6f\x13\x1e\x1f\xd3\x93\x55\xf2\xe5\x61\x26\xf8\x44\xb1\x13\xa6\x46\x4f\xda\x92\xec\xa0\x1b\x97\xf1\x15\xd0\x75\x71\xa2\x02\x72\x2d\x3d\xc3\x60\xc7\x24\x38\x27\x55\x75\x84\x09\xb5\x37\x16\xe4\xa2\xe7\xa1\xf3\x76\x29\x1c\x04\xec\xf8\x80\xb9\xbe\xfb\x02\x57\xfe\x3d\xab\x45\xd9\x48\xc0\xed\x04\xad\x30\xdc\x97\x83\xf1\x78\x77\xf3\x8d\xd1\x8e\x18\x81\x0e\x98\x99\x34\x3a\x2e\x92\xc4\xaa\x82\x23\xa6\xb5\x5f\x17\xe8\x26\x03\x55\x6b\x2e\x74\x84\x17\x58\xdd\xb3\x1c\x79\x11\x45\x14\x99\x34\xaf\xf6\xdf\x5d\xb0\x45\x0c\x1a\xcd\x08\xb9\x8d\x70\xd6\xfc\x43\x18\x6e\x6d\x5f\x83\xae\xf1\x76\xbb\x61\xdf\xdb\x44\x25\xde\x68\x9d\x8d\x07\xfc\xd5\x02\x2a\x0c\xa3\x72\x85\x69\x1b\x3c\x85\xae\x16\x88\xb6\xf5\xe4\x74\xd9\x96\x4d\x2a\x6d\x1d\xd1\x94\x5c\x87\x87\x3a\xb1\x4e\x1c\xe5\x8d\x79\xef\x82\x9d\xb6\xe1\x66\xfb\x44\x2b\x9a\x8c\xd1\x58\xe3\xdf\xe7\xed\x21\x2e\xfb\x93\x07\xdb\x3a\x08\xf5\x5c\xd9\xe4\x59\xf1\xb9\x6a\x57\xaf\x99\xe5\x67\x1f\x22\x63\x7c\x5a\x0d\x6a\xa8\xf2\x9a\x3d\x90\x91\xd9\xd8\xdf\xee\x9b\xfb\x80\x3f\xb6\x28\xa7\x05\xaf\x4b\x3a\x5d\xe3\xd1\x1b\xb1\x46\x05\xa7\x96\x15\xa5\x67\x89\xc1\x6a\x59\x75\xc9\x39\x14\xbb\x06\x4b\xc7\x73\x38\x2e\x6c\x2c\x66\x7a\x41\x50\xb3\xd7\xbc\xe2\x18\x63\xb4\xdd\xbe\x95\xcf\x98\xa7\x51\x5b\xc8\xf1\x95\xbd\x01\x90\x5a\x7e\x5d\x62\x2b\x88\x2c\xfb\xa3\xc4\xf6\x30\x53\x7d\x17\xb9\x10\xf5\x6f\x5c\x3c\x9e\x8a\xbf\xdf\x1b\x11\x4e\x5d\x8b\x2b\xb6\xe4\x79\x5b\x16\x4f\x72\x90\x4b\xf7\x4c\x06\x9f\x77\x56\x64\xa8\xbf\xcd\x87\x10\x1a\xe9\xd3\x2c\x8b\xf7\xa0\x32\xf2\xae\xcd\x8a\xef\x31\xe6\xd5\xe6\x4d\x3a\xd2\xd8\x47\x64\x4b\x03\xa2\x80\x6d\x47\x49\x9a\x21\x0c\x13\xb8\xbc\x84\x5f\x38\x3c\xc7\x63\x3c\xcf\x65\x2e\x1e\xa2\x94\xb3\x16\x53\x98\x70\xc0\xcb\x93\x0a\x34\xe2\xb5\x61\x47\x1d\xd4\x92\x4e\xe1\x6d\x95\x8b\x0c\x8e\x47\xfd\x7a\x56\x4a\xd0\xbb\x5a\x68\xb1\xcc\x98\xc8\x4d\x85\x90\x5d\x2b\x43\x23\x44\x44\xb6\x60\xd3\xa5\x3d\x5a\xd5\x7b\x69\x6f\xe6\x1b\xab\x65\xb5\x97\xf2\xeb\x35\xcf\x31\x44\x3f\xc3\x12\x9d\x18\x2d\x95\x1d\x71\x4d\xb6\x25\xda\x32\x03\x79\x38\x3e\xc3\x13\x2a\x4d\x81\xa5\x95\xd6\x9e\x2c\x6b\x8a\x6f\xe9\x9b\x2b\x9b\x25\x6e\x64\x08\x59\xe2\xb6\x7a\x36\x76\x4e\xf1\xce\x92\x79\xa3\x58\x7d\xfd\x58\x75\x11\xb1\xa3\xba\x45\x20\x66\x83\xd4\xda\xe2\xc0\x96\x90\x7d\x24\x77\xfb\x99\xfb\x33\xf2\x96\xd0\xa3\x4d\xcd\xee\x01\x9a\x75\xe1\x49\xeb\xcd\x40\x48\x7e\x0a\x71\x37\x7d\x94\x33\x42\x62\x9b\xac\xd7\xe3\xb3\x3f\xff\xe3\xff\xf9\xf1\x4f\x7f\xff\xe3\xdf\xfd\xd3\x8f\xff\xff\x8f\x7f\xf9\xdb\xff\xfb\xaf\xff\xfc\x2f\x7f\xfe\xd3\xff\xfb\xf1\x1f\xfe\xf8\x97\x3f\xfe\xcd\x0e\x83\xb7\xc6\x3f\x8e\x8d\x3e\xa9\x3f\x42\xdd\x9c\x0d\x81\xde\x59\x0c\xfe\xcc\x3e\x62\xa0\x43\xe3\xb4\xc1\x1b\x47\x54\x6f\x5f\x71\x4f\xf4\xb0\xd9\x74\xb7\xa6\x12\x33\x98\x43\x39\xcd\xdd\xfd\x49\x37\x1f\xde\x9f\x5a\xb0\x95\xb3\x1f\x4c\x17\xb2\xdd\xa1\xc3\x37\xa7\x10\xcc\x62\xee\x6a\x04\x7a\x67\xe5\xc7\x76\xec\x5c\x84\x41\xb4\xa1\xa6\x1e\x71\xf4\xc1\x02\x0b\x82\x6a\x84\xc8\x0a\xf3\x22\x08\x07\x56\xec\xd7\x5c\xb5\x40\xe8\xbc\xb6\xa5\xfa\xa0\x46\x3e\x75\xd9\xf6\x0e\xe2\x74\xb2\x95\xa2\x7d\x6b\x77\x47\xaa\x08\xd8\xa1\xe5\xdb\x2f\xa1\x3f\x33\x7d\x8f\x46\x6d\x4b\xe2\xfb\x69\xbf\x83\xb9\x2f\xee\x5b\x8f\x9d\x27\x7a\xd0\x11\xfa\xd6\x3e\xd4\x68\xc0\x25\x10\x92\xc6\xb5\x88\xb5\x29\x4d\x32\x5f\x78\x36\xbd\x8e\x6b\x47\x73\xae\xcc\x05\xa0\xbe\xcd\x88\x1e\x4a\xd7\x64\x54\xe5\x6b\xae\x3e\xd6\x4b\x38\xc6\x74\x3c\x3f\x50\x70\xd0\x2d\x7c\x18\x9f\xc1\xab\x22\x5f\xe9\xcb\xc4\x10\x61\xdd\x5a\x52\xe2\x53\x2e\xac\xc9\x42\x51\x45\xec\x8b\xb9\x28\x3c\x82\xab\x29\x5b\xaa\x85\x5f\x7f\x5c\x2e\x85\x42\xbb\x33\x6b\xf4\x8d\x47\x18\xbf\x10\x05\xd6\xe7\x9e\x8d\x69\x44\x3d\xfd\x5e\xb5\x75\xc0\x7a\x6c\xb5\x59\x87\x7f\xb4\x62\xb6\x43\x03\x2f\x0e\x07\x06\xda\xc8\xc0\x60\x2e\x7f\x38\x99\x3f\x98\xcd\xd7\x6b\x07\x13\xc4\xce\xb9\x71\x18\xfa\x2a\xe4\xe3\x7d\x1c\xe3\x6a\xeb\x50\x0e\x86\xdf\x50\x37\xc1\x67\xf7\xd1\x08\x34\x65\x5b\x4f\xe7\x19\x36\x70\xc1\x29\x77\xd9\x6b\x8c\xd5\xa2\x12\x4f\x2b\x3c\x6b\x66\x33\x5e\xc7\x88\xab\x5f\x63\x0f\x7e\x49\x09\xc5\x29\x82\xdd\x1b\xf0\x0e\xde\x89\xe3\x2e\xc4\x3d\x36\x67\xfb\xf2\xe9\xed\x1b\xaa\x1e\xb4\xef\x0e\xff\x8d\xdb\xa2\x43\xec\x0f\x26\xce\xed\x9e\xe9\xb0\x30\xe2\x82\x88\x16\x23\x90\xf5\xbd\x79\x76\x17\x1c\x92\x67\xbf\x7b\xb7\xe2\xb1\xe7\x78\x03\xd9\x4c\xbc\x03\x71\x8e\xf1\x38\x36\x6e\xe1\x0d\x7f\xd3\x4c\xe4\xb4\x16\x13\x73\x0d\xd1\xd6\xc1\xda\xcd\xc6\xbf\xe6\x05\xbd\xfc\xbe\x36\xa8\xa3\xeb\x7b\xbf\xa5\x06\xc2\x5f\xc8\xb9\x9e\x64\x72\x50\xa2\x48\x32\x30\xd0\xd0\x45\xd8\x3b\xa4\xea\xb1\x7d\xbd\xee\xdc\x91\xc2\xee\xb8\xc7\xa0\x63\x6f\x1d\xc2\x2e\x47\xdc\x3a\xd4\x42\x3e\x78\xbe\xa9\x73\xbb\x72\xea\x08\x4b\xa7\x46\x12\x9f\xb7\x03\xb7\x0d\xed\x87\x40\xa5\x28\x1f\x73\xe9\x50\x30\x04\xb9\x73\x9a\x09\x1b\xf9\x2f\xfe\xfa\xd7\x15\xb5\x14\x39\x78\xc4\x99\xf4\xab\x13\x8d\x0b\xe8\xce\x09\x0f\x08\xb9\x69\x9d\x74\x57\x11\xb2\xd8\x6b\x41\x3b\xdb\x88\xae\x5f\xb8\x2e\x7a\xdb\x78\x59\xda\xb6\xc5\x56\x55\xd8\xa9\x97\x19\x79\xf2\xe1\x9d\x45\x39\xfd\x32\x23\x0f\x8e\x2b\x31\x3f\x4c\x5c\x6f\x7a\x00\x70\xd6\xa5\x6e\x4b\xda\x9d\x3b\x8a\x68\xa4\xed\xcc\xd4\xd0\x38\x5e\x6e\x04\x49\xb6\x5e\x77\xc9\xde\x9f\xa3\x5b\xca\x39\xa9\xca\x17\x72\x3e\x9c\x12\xd9\xad\x16\xee\x3b\x9f\xbb\xe7\xcc\xc1\x52\xce\xd3\xe7\x7a\x87\xec\xaf\x92\xed\x2b\xea\xb0\xb2\x3c\x70\xd8\x97\xc8\x43\x71\xf3\xb6\xcc\xb1\x47\x5e\xb6\x43\xdb\x7a\xc2\x47\x94\x39\x62\xa8\x06\xca\xc9\xef\xb1\x7c\x87\x22\xd7\xd2\xf1\xcb\x5e\x17\xf3\x82\x15\x2b\x1d\xd4\x39\xc7\x1c\xae\x2d\xe7\x31\x77\x4a\x36\x18\xeb\xc0\x94\x19\xa2\x87\xaa\xb3\x90\x02\x13\xb6\x74\xfc\x8c\xd4\xe1\x20\xde\x03\x79\x55\x1c\x97\x2c\xff\x11\x14\xd3\xce\x5e\xe7\x32\x4a\xfd\xa1\x6c\x4b\xe7\x8e\x0c\x9a\xf1\x71\x0a\xfe\xc0\x34\x10\x8e\xd0\x82\x4d\xbc\x15\xa5\x35\x1a\x92\xf6\x01\xc9\x26\x24\x4e\x4f\xf9\x87\xb5\x98\xeb\x66\x6e\xe3\x64\x3a\x0d\x0e\xe8\xfa\xc8\x14\x5e\x96\x36\x82\x83\x00\x4d\x1e\x52\x5b\x81\x6d\x05\x1e\x65\xcd\xa3\xff\xa5\x25\x31\xa2\xc3\x13\xed\xd8\xed\x39\x8f\xaf\x4c\x14\x64\x52\x96\x39\x80\x3d\xe8\x41\xdd\x7e\x67\x8f\x81\x10\xcd\xec\x67\x5e\xd3\x29\x10\xcd\x84\x6d\x1d\x7d\xe0\x0c\xd8\x1e\x26\x24\x88\xd0\xc4\x99\x04\x1d\x4f\xd2\x8d\xb2\xd6\xb6\x63\xcf\x21\xb0\xde\x85\xe1\x8a\x9c\x8a\x69\x7a\xd3\x4c\x72\x21\x17\x31\x71\x67\xb2\xc3\x12\x4a\x45\xb9\xd3\xc9\xed\x41\x3c\x46\xb2\x33\x65\x75\x2d\xb8\x1c\xa1\x23\x8f\x25\x92\x26\x5e\xd6\xb2\x8b\xe4\x72\x1b\xa2\xb6\x1b\xfb\x0f\x1f\x79\x5c\xc1\x7b\xfa\x77\xd6\x3f\xf6\x1c\xc1\x13\x3a\x27\xf6\x09\x4f\x89\x61\xdd\xb5\xef\x2f\x7b\xb2\x87\x31\x4d\xca\xbd\xc3\x3e\xa7\x58\x96\x94\x59\xb3\xef\x4e\xa8\x06\xf4\x7a\x1f\xb8\x18\x07\xa7\xfd\xef\x7d\x31\x4e\x8b\xdd\xae\xad\x3b\x68\x36\x91\xd8\xf0\xfa\x94\x62\xbf\xe1\x5b\x71\xfc\xcd\xc8\xb7\x5c\xbd\x7d\x2f\x38\xe5\xb6\x1b\x5b\x78\xd6\xd7\xfc\x72\xd7\x22\x71\xb3\xa1\x9a\x33\x77\xed\x4d\x10\xf4\x9a\xd2\xbe\xa5\x12\x51\xc3\x1e\xb5\xeb\xd7\x92\x3d\xe7\x87\xec\x93\xdd\x22\xb2\xed\x1a\xb2\x4e\xcd\xbe\xdb\xbc\xac\x88\xf7\x56\x8c\xf5\x6e\xef\xe4\xe0\x7b\x88\x7c\xf4\x35\x34\x38\xa1\xa1\xa2\x97\x21\xd3\xc2\xd5\xba\x0c\x50\xa3\x77\x7f\x3d\xee\x1a\x1a\x6b\x7b\xfc\xd5\x2e\x9c\x19\x40\xf9\x08\x73\x08\x86\xed\xa1\xd6\xce\xd9\xd1\x91\xd6\xd2\x39\xce\xc6\xe9\xa9\x89\xe8\xbd\xa8\xe6\x58\xd3\x4a\x56\xc7\x8d\xbb\x5b\x9a\xd0\x35\xae\x7c\x29\x21\x0b\xab\xdf\xc0\xa2\xbc\xf9\x1e\xfb\xaa\x7b\xf0\xce\xfd\x5f\x76\x51\xed\x1e\x45\xc4\xb4\xeb\x38\x60\x72\x21\x35\xad\xce\x7c\x21\xe7\xdb\x16\xd7\xb9\xc6\xf5\xe7\x31\xbb\x8e\xb5\x94\x0f\x55\x0c\x58\x92\x0f\x9a\x59\x6e\x20\x2d\x73\x0e\x5c\xe2\xb1\xe1\xdf\x06\x00\x1a\x00\xd5\xbc\x62\x6e\x00\x00")
+var _baronNamePbBaronGoTmpl = []byte("\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\xff\xec\x7d\x4d\x8f\xe4\xb8\x95\xe0\x59\xfa\x15\xaf\x85\xee\x6a\x29\x37\x52\xd1\x5e\x60\x17\xde\x6c\xe4\x62\xab\xb2\xb2\x3f\xec\xae\xaa\x74\x55\x96\xfb\x50\x28\xb4\x19\x21\x46\x04\x9d\x0a\x49\x25\x52\x99\x19\x8e\x8d\xcb\x5e\xbc\xc0\x2e\x30\xc0\x9c\xe6\x30\x30\xe6\x34\xd7\xc1\x9c\xe7\xf7\xb8\x07\xfe\x17\x83\x47\x3e\x52\x54\x84\x14\x1f\xd5\xed\x39\x0c\x26\x01\x77\x85\x24\xf2\xf1\xf1\xbd\xc7\xc7\xf7\x45\x7a\x3c\x86\xab\x32\xe3\x30\xe7\x05\xaf\x99\xe2\x19\x4c\x56\x30\x61\x75\x59\xa4\xf0\xfc\x15\xbc\x7c\x75\x0b\xd7\xcf\xbf\xbd\x4d\xc3\xf1\x18\x5e\xf3\xba\x29\x0a\x51\xcc\x4d\x03\x78\x10\x79\x0e\xe5\x3d\xaf\x1f\x6a\xa1\x38\xa8\x85\x90\x30\x13\x39\xd7\x8d\x7f\xcb\x6b\x29\xca\xe2\x02\xd6\xeb\x94\x7e\x6f\x36\xde\x07\x78\xce\x14\xf7\xbf\xe2\xf3\x66\x13\x86\x15\x9b\xde\xb1\x39\xc7\x2f\x37\xe6\xe7\x4b\xb6\xd4\x5f\xc6\x63\xb8\xb5\x63\xc0\xb4\x2c\x14\x13\x85\x84\x25\x57\x8b\x32\x93\xa0\x4a\x58\xb2\x3b\x0e\xa2\xc8\xc4\xbd\xc8\x1a\x96\x03\x2f\xb2\xaa\x14\x85\x92\x30\xab\xcb\x25\x48\x5e\xdf\x8b\x29\x97\x23\x44\xa3\xe6\x1f\x1a\x2e\x15\xb0\x22\x83\x9a\xcb\xaa\x2c\x24\x07\xb5\xaa\xb8\x86\x84\x4d\x71\x46\xa5\xe4\x2d\x94\x11\x30\x09\x0f\x3c\xcf\xf1\x5f\x5e\x4c\xcb\x8c\xd7\x12\x01\x20\xbc\x8c\xd3\xf3\xac\xac\xa9\xa3\x86\x36\xd2\x2f\x18\x52\x6a\x06\x65\x53\x83\x6c\xaa\xaa\xac\x91\xd2\xaa\x66\x85\xc4\xdf\x88\x99\x60\xb9\xf8\x03\x53\xa2\x2c\x10\xda\xac\xac\x97\x4c\xc9\x34\x0c\xc5\x52\xb7\x88\xc3\x20\x9a\xac\x14\x97\x51\x18\x44\x38\x77\xfe\xa8\xf0\xa7\x46\x43\x14\xf3\xf1\xef\x65\x59\xe0\x8b\xd9\x52\xbf\x17\xa5\xf9\xef\x58\x94\x8d\x12\x39\x3e\x14\x5c\x8d\x17\x4a\x55\xf6\x77\x53\xeb\xd7\x52\xd5\xd3\xb2\xb8\xa7\x9f\xa2\x98\xcb\x28\x0c\x83\x68\x2e\xd4\xa2\x99\xa4\xd3\x72\x39\x9e\x97\xe7\x77\x42\x8d\xf1\x7f\x96\x16\x51\x18\xb0\x62\x55\x4d\x20\x9a\x97\xe5\x3c\xe7\xe9\xbc\xcc\x59\x31\x4f\xcb\x7a\x3e\xae\xea\x52\x95\x93\x66\x36\xd6\xf3\x1f\xdf\x15\xe5\x43\x31\xd6\xad\xa3\x30\xc8\x9a\x5a\x4f\xf2\x84\xae\x6d\x97\x28\x0c\xf8\xb2\x52\xa7\x8c\x4b\xed\xa3\x30\x98\x09\x9e\x67\x4b\x26\xef\x4e\xe8\xed\xf5\x89\xc2\x40\xaa\xba\x99\xaa\x13\xba\xdb\x0e\x51\x18\x28\xb1\xe4\x52\xb1\x65\x75\x42\x77\xaf\x4f\x14\x06\x0f\x35\xab\x2a\x5e\xcb\x13\x00\xb4\x5d\x76\x59\x5a\x8b\x3c\x67\xe3\x65\xf3\x18\x75\xbf\x54\x77\xf3\x31\xaf\xeb\xb2\xd6\x92\xb6\x67\x20\x27\x79\xfa\x8d\x15\xbf\x3d\x1d\xf4\x0f\x44\x64\xbd\x3e\x07\x31\x03\xfe\x01\xd2\xab\xb2\x98\x89\x79\x7a\xeb\x56\x42\xc4\xf2\x3c\x82\xa8\x60\x4a\x46\xb0\xd9\x74\x71\xc3\xb7\xe7\xa2\xd4\xff\xa6\x73\x94\x70\x04\xc5\x8b\x6c\xb3\x39\x0a\xea\xbc\xae\xa6\x16\xea\x0e\x9e\xfa\xe3\xe0\x97\xf1\x92\x2b\x96\x31\xc5\xb6\x07\x3d\x7a\x48\x84\xdf\xae\xf8\x81\xf5\xe5\x1a\x58\x74\xbc\xb1\x70\xed\x9e\x00\x00\x9b\x47\x47\x91\xa5\x25\x36\xfe\x3a\x61\x08\x6c\xde\xc1\x31\x09\xc3\xf0\x9e\xd5\x10\x87\xc1\x0f\x70\x09\xb3\xa5\x4a\xdf\x54\xb5\x28\x94\x79\xd6\x0a\x2c\xbd\x2a\x97\x15\xab\xb9\x79\x45\xda\x27\x7d\xaa\x4a\x61\xde\x74\xa6\x99\xbe\xe4\x0f\x6f\x78\x7d\xcf\x6b\xf3\xd1\x68\xb3\xf4\x65\x59\x5d\xe5\xa5\x6c\xdf\xa6\x57\x65\xb5\x32\x0f\x46\x78\xd3\xef\x6b\x56\x85\xc1\x78\x0c\xc4\x4f\x2b\x86\x46\xc7\x63\x53\xad\x92\xd2\xa7\x85\xee\xd7\x2a\x99\xf4\x39\xfd\xc4\xd7\xa4\x3e\xd2\x6b\xfc\x17\x5f\xd8\x25\x9d\xbe\xd1\x3f\xf0\x95\xb7\x4c\xd3\x5b\xfb\x1b\x3f\xb4\xcb\x0f\x5b\x8b\x62\xfe\x5b\x96\x37\x7a\xde\x9e\x5e\x49\xbf\xc2\xdf\x2f\x98\xbc\x0b\x93\x30\x1c\x9f\x1d\xf5\x07\xd7\x76\x4f\x02\xfb\xea\xf0\xdf\x58\xef\xa0\xdf\x16\xc0\x70\xbf\xb9\xe7\xf5\x08\x84\xfa\x5c\x42\x23\xf9\xac\xc9\xf5\x36\x35\x6b\x8a\x29\x52\x41\x82\x5a\x30\x05\x05\xc7\x5d\xaa\x84\xb2\xd2\xb6\x01\x94\xd8\xb7\xe2\xf5\xb9\xdd\x06\x10\xe0\x84\x49\x21\x53\xf8\xaa\xac\x81\x3f\xb2\x65\x95\xf3\x11\xac\xca\x06\x96\x62\xbe\x50\x50\x31\x89\x5b\xa4\x87\xb0\x2a\x81\xb9\x81\xcc\x38\x55\x5d\x66\xcd\x94\x4b\x04\xc7\x0a\x2d\x01\xe9\x37\xac\xc8\x72\xc4\xf1\x41\xa8\x05\x70\x36\x5d\xd0\x4e\x0f\xb1\x1d\x3d\x81\x07\x51\xf3\x0c\x9a\x0a\x91\x64\x20\x2b\x3e\x15\x33\x31\x85\x8a\xa9\x45\x0a\xf1\xb7\x0a\x01\x0a\x09\x55\x5d\x4e\xd8\x24\x5f\x01\x83\xa5\x90\xca\x58\x09\x90\x71\x29\xe6\x05\x76\x15\xc5\x7d\x79\x87\xdb\x3d\x07\x14\x36\x31\xe5\xce\xaa\xd0\x28\x72\x84\xd3\xce\xc0\xc8\x00\x88\x96\x92\x69\x12\x8e\xc7\x8e\xba\xd3\x5c\xf0\x42\x75\xa9\xab\x4a\x98\x96\x79\xce\xa7\xca\x33\x50\xf2\x15\x4c\xcb\xc2\x80\xe3\x99\x67\xae\x88\x02\x27\x84\x00\xa5\x28\xe6\xb9\x31\x4c\x0c\xad\x04\x52\x78\xc9\x11\x0f\x1f\x5f\x51\x28\x5e\xcf\xd8\x94\x0f\x71\x02\x81\xb9\xc1\xfa\x8d\xa4\x06\x07\x6b\xad\x12\x6d\x2c\xe0\x02\xbc\xa2\xf9\x4c\xcb\xe5\x44\x14\x9a\x4e\x4b\x42\xd1\x63\xec\x88\x4c\x29\xd5\xd4\x05\x08\x85\x74\x45\x04\xa7\x2c\xcf\x79\x8d\x16\x13\xb3\xc8\xa6\xa1\x9e\xce\x0e\x41\xd7\x61\xf0\xb6\x70\xf3\xe3\xd9\x7a\x9d\xda\x1e\xc6\x04\x24\x4d\xb0\x5e\xd7\xac\x98\x73\xf8\x54\xc0\xc5\x25\xb8\x36\x2f\x0c\xcb\x50\x8f\xad\xd7\x9f\x0a\xea\x63\x47\x01\x00\x37\xd5\xd4\xbe\x0c\xd7\x6b\xa3\x5c\x8d\x75\x69\x5f\xcb\xc3\x43\xa0\x00\x43\xec\x4d\x22\x01\x6f\xd0\x78\xaa\x1e\x81\xac\x34\xdc\x1a\xf0\xdf\x11\x0a\xcc\xd9\x7a\xfd\x75\x89\x88\xc1\xa7\x22\x7d\x6d\x4c\xd0\xdb\x55\x65\x27\x98\x40\xbc\xd5\xc2\x18\xa6\x5e\x93\x91\x51\x70\x09\xac\xc3\xc0\xda\xad\xfa\x1d\x22\xca\xd3\x9e\x99\x23\x32\x38\x78\x12\x06\xb8\x59\xd5\x35\x7c\x72\x09\x85\xc8\x11\x42\x40\xfc\x2a\x44\xae\x81\x84\xc1\x26\xb4\xef\x2c\xf4\xf4\x20\x4e\xc9\x08\xe1\x85\x1b\x47\x4e\x24\xe6\x0b\x76\xe7\x91\x27\x5c\xaf\xf5\x42\xfe\x54\x71\x44\x34\xdd\x60\xe3\x73\xf0\xa9\xfc\xa9\xe2\x43\x84\x46\x58\x7d\x33\x93\x48\x74\xc5\x7b\xc5\x24\xd9\x65\x37\xac\xdd\xe4\x90\x7f\xfd\x5c\xb2\x8e\x81\x5b\x51\xeb\x4d\x02\xb1\x25\x86\xff\x5a\x53\xcc\x63\x47\x50\xf3\x0f\x38\x11\x82\x90\xc6\x87\xb8\x1d\x06\xc1\xbd\xe3\x9d\xf4\x79\x87\xa8\x69\x54\x92\x30\xe8\xe1\xda\x2e\xdb\x90\x6f\xf6\xed\xbd\x61\x47\x80\x62\xdd\xee\xcd\x3e\x6f\x70\x73\x7c\x9a\xe7\xd7\x8f\x53\x5e\x29\xbd\x4f\x49\xa3\x62\x1d\xa5\xf4\x0e\x85\x2e\x0b\xad\x4d\xfb\x41\x82\x66\x23\x43\x28\x9e\x4d\xe0\x48\xfd\x42\x64\x59\xce\x1f\x58\x6d\xbc\xc0\xb7\xd2\xfa\x85\xe8\x04\x55\x55\xbe\x42\x15\x83\x6a\x53\x21\xf0\xa5\x6b\xad\xbd\x2e\x7e\xcf\xeb\x95\x63\x1b\xae\x17\xd4\x20\xe4\xb6\x69\x78\xaf\x2a\xdc\x35\x58\x9e\xaf\x46\xae\x9d\x84\x29\x2b\x60\xc2\xf5\x5e\xc3\x33\xec\x36\x59\x41\x81\x64\x57\x25\xbe\xe7\x8f\xd3\xbc\xc9\x78\x66\xbc\xc0\x09\x47\x14\x70\xce\x15\xcf\xd2\x1d\x6a\xc4\x2d\x4e\x23\x88\xde\x28\xa6\x1a\x19\x8d\x20\xba\x11\xc5\x3c\x4a\xdc\xba\x3f\x73\x04\x49\x06\xfb\x3b\x0c\x3d\xaa\x8c\x5a\x6c\xd2\x34\x95\xda\x2c\xd0\xc2\x23\x0a\x7a\x7d\x71\x09\x4b\x56\xbd\x33\x9f\xde\x1b\xf2\xaf\x37\x28\x5e\xdb\x0b\xa6\x67\xb5\x04\x41\x10\x79\x62\x14\x5d\xc0\x7a\x33\x0a\x03\xdf\x8c\xdc\x84\x61\x80\x7b\xfd\x0f\x88\x0a\x82\x31\x20\x1d\x5a\x38\x92\x98\xc1\x0f\x23\x28\xef\xf0\xb3\x45\xec\x1d\x7f\x7c\xff\x25\x7c\x52\xde\x21\xb6\x41\x50\xb1\x42\x4c\xe3\xd6\xc2\x9b\xc5\xd1\xb5\x05\x61\xe7\x0d\x9f\x7f\x26\x3f\x87\xac\xe4\x12\x8a\x52\x01\x7f\x14\x52\x7d\x09\x92\x73\x9f\xf1\xce\xa7\xd4\x26\x3d\x22\x95\x24\x24\xcf\x19\xcf\xb9\xe2\xb1\xc5\x40\x7f\x6b\x27\x20\x8a\x69\x8b\xbe\x6d\x03\xc7\x13\x4a\xcc\x34\x88\xcb\x4b\xe8\x90\x4c\x43\x08\x82\x5e\x55\x0a\x97\x1e\xe6\x71\x6f\x13\xc4\x3d\xd8\x6c\x93\xdc\x2c\xbb\xef\xd8\x84\xe7\x3c\x6b\xa5\xc1\x84\x50\xe6\x5c\x59\xd9\x45\x79\x77\xd4\xd3\x22\xfc\xb0\xe0\x85\xfb\x5a\x7a\xe2\x4a\xc0\x8c\xd4\x8d\xcc\x2a\xa3\x85\xd0\x98\xc6\x60\xe2\x32\xcc\x04\x77\xc4\x14\x8d\x9a\x5a\x4c\xb5\x99\xd5\x4e\x03\x1e\x16\x62\xba\xd0\x6b\x48\xf2\xa2\x0f\x05\xda\xc9\xa9\xb7\xb5\x63\xca\x9a\xf6\xf1\xdd\x59\xe1\x22\x89\x8d\x00\x8f\x76\xb5\x70\x8f\x62\x0e\x87\xe6\xf5\xd1\xba\x69\x07\xa9\x11\xcd\x53\x53\xbc\xe6\x53\x2e\xee\x51\x35\x71\x33\xc5\x72\xd6\x99\x77\x0a\x6f\x38\x77\x60\x3c\x28\xfa\x83\x35\x44\x09\xe1\xeb\x47\x44\x14\x25\x32\xe3\x8a\x89\x5c\xa2\x9d\x6c\x97\x13\x02\xb1\xc6\x2e\xcb\x85\x5a\xa5\xfb\x54\x48\x67\xee\xf1\xf2\x27\x50\xf4\x3f\xf5\xcc\x7f\x1c\x3d\xd3\xe9\x36\x82\x93\xd4\xce\xf1\x01\x8a\x63\x5d\xcf\xaf\x5f\xdf\x5c\xe1\x3c\x79\x7d\xb2\xef\x89\x66\x9c\xd7\x1d\xc3\xb5\xb2\x35\x06\x1c\x7f\x80\xdd\x33\x91\xb3\x49\xce\x8d\xdb\x30\x7f\x7d\x73\x05\x03\xce\x00\x2d\xa7\x2e\x64\xe7\x21\xca\x56\x37\x8c\xa0\xd4\xb6\x83\xc4\xf5\xd0\x89\xc5\x68\xf1\xe6\xb5\x31\x2d\x92\xa1\x81\x90\x5d\xd2\x6b\x28\x51\x26\xde\xbd\x1f\x86\x84\xd2\xdb\xf7\xf5\x19\x9f\x95\x35\x8f\x11\xdb\x17\x14\x53\xba\x2d\xc9\xfa\x4c\x46\xc8\xb5\xad\x71\x2e\xd1\x70\xe2\x45\x16\x77\x5e\xbb\xf9\xa4\x69\x9a\xe8\x40\xc7\x7a\x0d\xb7\xe5\x77\xe5\x03\xaf\x5b\x41\x44\x52\x21\x73\xad\x69\xf8\x04\x31\xc2\x8f\xbc\x5e\xa3\x9b\x74\x50\x7a\x17\xc6\x0d\xf7\x24\xee\x02\xba\xb3\x72\x11\x9a\x18\xe5\xd9\x51\xbe\x4f\x48\xd1\x12\x09\x9e\xeb\x40\x39\x4e\xdf\x6b\x41\xc6\xb1\x6e\x70\x5d\xf4\x36\x20\x57\x07\x5b\x74\x08\x91\xa6\x29\x76\x43\xd2\x6d\xc9\x3e\xea\xde\x76\xbe\xdb\x9e\xb3\xb3\xcd\xfb\xd9\xed\xec\x7c\xb3\xc9\x79\x70\x7e\x76\x6f\x75\x97\xc6\x00\x5b\x44\xa6\x68\x88\x67\xce\x93\x93\x45\x61\x0a\x54\xb4\x1e\x8a\xaa\x6c\x67\x7b\xfc\x44\x0f\x62\xaa\x97\x5a\x2c\xe1\xac\x1d\x2a\x69\xc1\x1f\xf0\x7e\xd1\x39\xfa\x79\xdd\xdf\x1f\xd0\x43\xaa\x3c\x07\x6a\x97\x90\x7a\x12\x5a\x96\x7c\x8f\xea\x44\x37\xb8\xfa\x48\x0f\x98\x08\x6c\x04\xfe\x30\x75\xc7\x63\xd8\xb7\x36\x40\xa0\x2e\x74\x22\xa1\x03\xc4\xa9\xe9\x40\x2d\xbe\x42\xf6\xe8\x20\x11\x26\x74\x78\xad\xa4\x89\x21\x91\xfe\xb4\xca\xc1\x01\x76\xae\x2e\x46\x72\x30\x50\x55\x9f\x67\xe5\x92\x89\x62\x5f\xe3\x14\x6e\x6a\xb1\x64\xb5\xc8\x57\x36\xb6\xe5\x07\xc2\x8c\x3a\xde\x37\x8f\xf8\x87\x5d\xd9\xc0\xb9\xbc\xe6\x1f\x5a\x59\xd4\x3e\xb7\xf7\xd4\x8d\x7a\x68\x2f\x9b\xfa\x1c\xe3\x65\x3b\x4e\x7e\xd8\xc3\xa6\xeb\xe2\x68\x36\xed\xd5\x50\xbd\x7c\x32\x3d\x6c\x93\x21\x46\x1d\x66\x01\x0d\xa1\x19\xb6\x87\xad\x55\xbe\x3a\x8a\x4f\x7b\x27\xd2\xc7\xa8\xbe\x30\xc8\x3e\x4e\xc9\x0a\x59\x65\x7b\x1d\xb1\x8e\x3c\x66\xc9\xaa\x8f\x5b\xdf\xf0\x1c\x63\xea\xa1\x11\xb4\xde\x5d\xb4\x5f\xff\x2c\x33\xb0\x39\x9c\xf4\xc5\xf3\x64\xbb\x01\xe2\x8b\x5a\xf4\x6e\x04\xf7\xad\xb9\xb7\x74\x76\xea\x7d\x27\xfe\xa2\x53\xd1\x1c\xee\xf8\x4a\xb3\x3b\x43\x83\x76\x52\xaa\x05\xd2\xd8\x8e\x42\x49\x5c\x88\xef\x12\xf2\x3d\xb0\x69\x9e\x43\x8e\xfc\x22\x28\x8c\x3c\x2e\x1d\x6b\xbd\x62\x45\x59\x88\x29\xcb\xbf\xe1\x2c\xe3\xf5\xaf\xf9\xca\x3a\x26\x38\x90\x2c\x29\x02\xac\xc8\xcf\xb3\x20\xa6\x53\x6e\x03\x1f\x5c\xa8\x05\xaf\x69\x64\xfc\x8e\xa4\xb8\x74\x73\xfd\x5e\xa8\x85\x4e\x42\x20\x89\x46\x7a\xae\xef\xbe\x78\x9f\x1c\x6c\x38\x80\x5d\x7c\x97\xb4\x10\xc8\xe4\x27\xf6\x4d\xd5\xa3\xde\x81\xad\x01\xb8\xff\x4f\xf3\xd1\x84\x99\x4f\x36\x2a\x5f\xf2\x07\xaf\xb7\x19\x5e\xa7\x1c\x28\x6e\x04\x13\x36\xbd\x43\xf6\xac\xec\x9a\x31\xf1\x79\x9c\x6b\xc1\x75\xba\x23\x85\x6f\x15\xf2\x91\x22\xfd\x24\xae\x62\x22\xd0\x61\xb3\x2c\xa0\x40\xb6\x2a\x21\x13\x2c\x37\xd1\xee\x9c\x29\x5e\xc3\x14\x53\x51\xe8\x81\x73\x1f\xa6\x11\xd0\x0e\x76\x31\x7e\x36\xbb\x67\x6a\xf0\xbd\x2a\x8b\x62\x8f\x65\x6a\x1a\x59\xcb\x34\x1e\x30\x4d\xfd\x25\x87\x06\xc2\x76\xa0\x35\xf0\xde\x56\x77\x73\x5c\x69\x36\xde\xda\xad\xb0\x08\x76\x5d\x1a\x3f\xba\xda\xea\xc0\xe0\x9e\xd5\xce\xfb\xf2\x54\xc7\xae\x1f\x1a\x06\xb8\x5e\xfa\x9a\x5e\xee\xda\x91\x44\x25\x2d\x8e\x48\x18\x72\x33\xcb\xba\x83\x06\x72\x5b\xcf\x21\x36\x0e\x21\x44\x9f\xc9\xf4\x33\x19\xb5\x93\xf3\x5b\x63\xcb\x04\xfd\x26\x0f\x98\x68\x61\x38\x7c\xa2\x7d\xb6\x67\x6b\x9c\x3e\xe7\x87\x8c\xd3\x03\x1a\xce\xc4\xe3\x82\xd6\x78\xc7\xc7\xc4\xd1\x2b\xd6\x8e\xa7\x66\x04\x59\xb2\xed\x2f\xfb\xc3\x2d\x32\xdb\x49\x1e\xb4\xe5\xe1\x9c\x40\x39\x9c\x6d\xdf\x0b\x3f\x31\xe2\x7d\x1f\xb5\xe3\x05\x1b\xab\x88\x51\x01\xe3\xdc\x81\x56\xdb\x4f\x37\x6d\xf6\xec\x99\xcf\xf9\x31\x7b\xe6\xfe\x5d\xf0\x58\xd3\x86\xf6\xa7\x81\x3d\xd3\x28\x0c\x5a\xd1\xcf\xf9\x89\x7b\x26\x4e\xe6\xb5\x46\xe6\xc8\x4d\x13\x9b\x3a\x03\x07\xb7\xf2\x93\xb6\xcd\x2a\x5f\xf5\xed\x9b\x3e\xdb\x7e\xba\xa9\x33\x6c\x91\x5e\x17\x47\x58\xa4\x87\x19\xe2\x19\xa6\x7b\x38\xbc\xd7\x22\xed\x70\x6d\xdf\x3c\xfa\x0d\x1d\x9a\xe2\x71\x2c\x3b\x35\xef\xb3\xdf\x22\x25\x2c\xf4\x4e\x2d\x6f\x4b\xdf\xc8\x31\x2b\xa5\x6f\x97\xa0\x71\x70\x9d\x18\x41\xdd\x03\x25\xbe\xe3\x2b\x09\xef\xde\xdb\xb8\xe0\x01\x78\x47\xe5\xcd\x96\x19\x9c\x1d\x32\xb0\xf4\xbe\x51\x31\x51\xb7\x83\x87\x81\x8d\x12\xde\xb5\x66\x97\x46\x6f\x4d\xc1\xb3\x7b\x1b\x21\x9c\xaa\xc7\x54\xd3\x24\xbe\x4b\x52\x8a\x86\x26\x5f\x82\x8d\x14\x06\x06\xb0\x0b\x97\xe8\x47\x63\xe4\xb8\xe8\x18\x2a\x4f\x84\xa9\xbf\x75\x2c\xba\xb3\x65\x86\x51\x37\x3b\x81\x5f\x95\xa2\x88\xcf\x96\xd9\xa8\x7d\x75\x83\x7d\x62\xdd\x13\x63\x2e\x89\x05\x47\x94\x41\x8b\x87\x42\x6e\x86\x93\xc7\x06\xd4\xbe\xb9\xbd\xbd\x21\x1f\xc4\xbe\x3b\xfc\x37\x0e\x43\x9d\xcd\x37\x54\x2e\xb4\x78\xc1\x25\x44\xac\xaa\x72\x31\xd5\xf5\x2b\xba\x24\xf0\x4b\x98\x2e\x58\x2d\xb9\xba\x6c\xd4\xec\xfc\x97\x91\x8b\xc3\xe1\xa8\x14\x55\xa0\xa4\x3d\x0a\x16\x79\xd0\x46\xd1\x1e\x8e\xcf\x21\xb0\xb2\x80\xaa\xe6\x19\x9f\x89\x82\x67\xba\xf4\x42\xd2\x9a\xdb\x1a\xe6\x60\x54\xae\x5b\xf9\xd3\x8d\xca\xf9\x35\x21\xd6\xce\x11\x33\x48\x35\x7c\xed\x12\x78\x7a\x6b\x2b\x42\x84\xb2\xf3\xee\xfd\x30\x74\xcd\xff\xbe\xcf\x14\xaa\x33\x63\xa0\xcd\x2b\x3b\x91\xba\xfe\x4e\xd7\xa8\xc9\x8d\xba\xa9\x63\xee\x3d\x0c\x77\x79\x3a\x53\xbc\x8e\xb7\xbf\xa8\xab\x96\xb5\xb1\xc7\xe6\x44\x03\xda\x9d\xe5\x51\x71\x42\x0a\x20\xe9\x98\xe0\x12\x09\xb3\x6c\x1e\xd1\xf4\x7a\x5d\x36\x88\x43\x12\x7a\x96\x04\xa5\x39\x2e\x2e\x07\xc9\xec\x9a\x4e\xb0\xa0\xa4\x98\x23\x40\xea\x96\x3e\x33\xaf\x28\x08\xbe\xb4\xfd\x74\x34\x9b\x9a\x63\xe9\xef\x04\xfe\x37\xdc\x96\x6f\xb1\xb4\x71\xb3\x89\x92\xf4\x86\xa9\x45\xa7\x0d\xbe\xb8\xe5\xcb\x0a\x6d\x6d\xdd\xc2\x8a\xd3\x40\xa1\x98\x0e\x43\x76\xe3\x90\x84\x51\x4f\x30\x92\xec\x39\x9c\x9e\x37\xa4\x4e\xc3\xb8\xed\xc1\x34\x34\x1c\xc5\x86\x5f\x9b\x6c\x9a\xdd\x86\xcd\xe7\xbe\x90\x64\xa0\x13\x0c\x6d\xc8\xce\xff\x49\x4a\x63\x49\x46\x95\x2f\x34\x26\x6d\xa7\xbd\x11\x63\x16\xd8\x04\x9c\x1d\xf1\x7b\xfc\x5e\x8f\xd0\xa3\xc9\xf8\x8c\x35\xb9\xc2\xdd\xce\x08\x08\xae\x48\x1d\xb0\x2c\x67\xb0\xad\x0b\x46\xc0\x60\x52\x66\xda\xa9\x44\xdd\x60\x5c\x02\x74\x2d\x23\x3d\x4e\xe4\xbc\xd1\x7b\xd4\xb2\x08\x4a\xbf\x4f\x35\x76\x71\x62\x7c\x1e\x06\x52\x27\xc5\x01\xe9\x81\xa0\xfe\xdb\x17\x5f\xa4\xf0\x2d\x25\xd0\xb0\xa5\x1f\x69\x35\xeb\x86\xd7\xba\xe6\x1a\x5b\x54\x75\x79\x2f\xd0\x5d\x5e\xe8\x2f\x58\x4f\x90\xe7\x98\xa5\xd7\xd8\x9a\xbc\x25\xb6\x6b\x6d\x32\x1f\x34\x42\xf1\xa0\xe3\x2c\xd2\x17\xac\x96\x0b\xa6\x6b\xc5\x2c\xfe\x4b\xf3\x0a\x13\xfd\xb2\x99\x4e\x39\xcf\xa4\xf1\xcf\x7e\xf5\xe6\xd5\x4b\x2a\xdd\xce\x6c\x9d\xb5\x75\xf0\xf4\x5c\x1d\x3a\x98\x43\x1d\x9e\x96\xa9\x0b\xc0\xca\xf9\x7a\x64\xdd\x46\x37\xb3\xf6\x63\x07\x1a\x88\x42\x2a\xce\x32\xa2\xd9\x08\x9a\x22\xe7\x52\xa2\x3f\x2f\xa8\xe0\x0e\x99\x86\x68\x69\xa4\xa5\x84\xb2\xd6\x89\x73\xc4\xce\x52\x1b\x39\x8d\x78\xa8\x96\x44\x10\xff\xe2\xf1\x31\x21\xa5\xeb\x6b\x9c\x3e\xc3\xc6\x95\xac\x8c\xe0\xc1\x54\xda\x75\xc5\x4a\xdb\xa0\x28\x25\x23\xf8\x01\x97\xb3\x4f\x62\xa3\xce\x30\xed\x59\xf1\x7a\xad\xa5\xe2\x02\x69\x63\x05\x04\x2d\x1b\x31\xb3\xd4\x47\x86\x98\x8d\x1b\x9b\xc4\x5d\x5e\xb5\xfb\xb6\x98\x01\x7e\x7a\xa6\x87\xa4\xae\xd7\x26\xa2\xeb\x00\xd9\x7e\xc8\xbe\x38\xf9\xd2\x8e\x80\xcd\x2e\xbd\x3d\x1c\xd1\x86\x4b\x07\xce\x06\x25\x82\x87\xd4\x88\x61\x9c\xa4\x6f\xb8\x8a\x23\x52\xac\xe7\xb7\xab\x8a\x47\x23\x7f\x0b\x35\x13\x58\x58\xa1\xf5\xf1\xef\xaa\x1b\x2b\xd7\xed\x3c\xd0\x8a\xf1\x4c\x18\x0b\x83\x5a\xca\x58\x13\x36\xd8\xc6\xe5\x6e\xd4\xd3\x32\xfd\x9a\xab\xf8\xce\xa6\x27\x37\x61\xa0\x99\x7f\x61\x6a\x63\x53\x23\x5e\xdf\xa2\x29\x5a\xb0\xdc\xdb\x74\x34\xee\x72\xba\x07\x6b\x4f\x6c\x0d\xe2\x4f\x9e\x80\x9c\x12\x44\x7c\x1d\x27\xf0\x3f\xfd\x51\x5e\xfd\x5a\x63\xad\xc7\xbf\xdc\x6e\x4a\xb4\xd5\x72\x43\x93\xc2\x86\x89\x7b\x19\x23\x43\x12\x54\x71\xad\x68\x1a\x85\x5b\xc7\x93\x66\x06\xef\xde\x63\x45\x70\x42\xcb\x6b\x1d\x6a\xf3\xf0\x01\x7c\x29\x73\xc1\x7a\x2b\x8a\x6f\x0b\x62\x3e\x42\x18\xc1\x93\x87\xe4\xcb\xed\x60\xbe\x31\x8c\xa4\xf8\x03\x87\x4b\xf8\xe5\x2f\xfe\xc7\x7f\x37\x52\x96\xf3\x02\xfb\xe0\x0c\xf5\x37\x6c\x1a\x20\x1a\x97\x30\x69\x66\xef\x2e\xf0\xe5\x7b\xda\x59\x49\x3d\x63\x79\x8b\x26\xed\x2c\x8e\xdc\x6a\xc3\x49\xe9\x8c\xf3\x05\xc6\xe1\x70\x7d\x56\x68\x61\x41\x51\x16\xe7\x28\x7a\xce\x77\xc0\x86\xd1\x08\x81\x53\x36\x99\xa0\x52\x85\xf2\x4b\xfe\x10\x3f\x98\xa5\xa3\x69\xa4\xd5\xb6\x3f\x77\x5b\xdf\xb0\x0e\x03\xdd\x0a\x9f\x51\xa5\xfd\x0e\x47\xb9\x20\x9d\xfd\x3b\xda\x41\x90\x69\xd4\x8a\x29\x21\x67\x02\x0f\xb2\x2c\xb8\x53\xc0\x5a\x77\xb7\xdc\xf3\xf2\x3e\x12\x84\x3e\x73\x62\x0f\xde\x1c\x53\x58\x9e\x9a\xac\x98\x37\xa8\x43\x55\xa3\x85\x87\x25\xec\x50\x38\x52\x18\x58\x75\x0f\xe0\x97\x1d\x38\x2f\xc0\xca\x48\xbc\x68\x81\x26\x9e\x9a\x8d\x13\xe8\x16\xf0\x2d\xd2\x76\x84\x81\xde\xed\xca\xc3\x97\xb4\xbc\x3a\x20\x08\xa9\xb0\x93\x08\xd8\x0e\x6a\x1c\x34\x83\xbc\x98\xd9\x01\x3b\xc8\xc5\x41\xf6\x1a\x1c\xdb\x7e\xb5\xc6\xbe\x3f\xd3\xa3\x13\xbf\xe6\xe8\x11\xf6\x41\xfd\x78\x4e\xdb\x9b\xef\x32\xdb\x71\x6e\x58\xcd\x0b\x45\x6e\xa8\x93\x53\x5d\x16\x87\x7b\x0c\x62\x65\xdf\x6a\xc8\x28\xc1\x87\x12\x09\x81\x17\x15\xd9\x3b\xad\x5e\x37\x1b\xce\x68\x0f\xd2\x4d\x86\x5d\xec\x20\xe3\x33\x5e\x43\x9d\xa2\x62\x4f\xaf\x30\xe2\x8a\x0a\x48\x6b\x0c\x74\xbf\x5b\x8f\x7b\x6b\xae\x04\x19\x95\x3b\xda\x5d\xb8\xe0\x5d\xc6\x90\x4e\x13\xbc\xe6\x2c\x7b\x9a\xe7\xb1\x01\x7e\x5c\xc5\xa5\x3d\x62\x30\xc3\x3d\x71\x04\x11\x69\x82\x1a\xf7\x77\x6b\x63\xe1\xcc\x2c\x39\x23\x52\xe6\x5b\x8a\xe8\x0b\x3d\xb7\xa0\xb1\x4a\x0d\x7d\xaf\x8b\x4b\x70\x47\x6a\x5a\x75\x47\xa6\xa5\x6e\x1e\x3c\xcd\xf3\xf2\xe1\x86\xd5\x4a\xb0\x1c\x03\x78\xaa\x6e\xc8\x0e\x7d\x2e\xe4\x94\xd5\xd9\xdb\x42\x1f\x7f\xba\x68\xbf\xd8\x52\x14\x9c\xfa\x25\xf8\x03\xee\xa8\x54\x4c\x92\xee\x28\xd5\x7e\xb5\x3a\xac\x58\x7b\x55\x2b\xa1\xd1\x21\xa6\x5b\xb0\xeb\x1e\xb2\x12\xf5\x3e\x4a\xe7\x1a\x82\x04\xde\x6e\xf6\x8c\x65\x24\x0e\xf4\x0d\x11\x68\xd1\x72\x01\x02\x74\x62\x6f\x58\xcd\x96\xd2\x7a\x48\xbf\x65\xb5\x8c\x6b\xe4\x21\x1e\x31\x69\xbf\x63\x38\xe1\x43\xc3\xeb\x55\xdb\xbc\x4e\xdf\xbe\xfe\x2e\xfd\x0d\xbe\x8c\x6d\x07\xaf\x49\xe8\xbb\x4d\xa6\xca\xf6\xe2\xb2\x95\x5a\x7d\x1a\x84\x7c\x26\x5d\xbb\x53\xd8\x66\xe9\x77\xa5\xb1\xe5\x21\x42\x6a\x44\xa6\x0d\x86\x74\x35\x94\xf4\x6b\x5e\xe8\x41\x1d\x37\xd1\xa1\xea\x8f\x24\xef\x47\xe1\x55\xc1\xcb\xd9\x0e\x1e\xfc\xc3\x2e\x1e\x7a\x5a\x3f\x05\x11\xb7\xac\x9e\xd4\xfc\x43\x9b\x79\x27\x3f\x49\x07\xad\x6d\xd3\x36\x18\xd9\xe3\x83\xf5\x6a\xcc\xa1\x9c\xab\xd1\x8f\xd2\x3a\x24\x6e\x5f\x67\x52\xeb\xcf\x6d\x07\xc4\xb8\x63\xf5\x09\xf9\xd4\x1e\x04\xfb\x74\x5f\xaf\xf9\x3d\x94\x62\x75\x26\xd2\x90\xa2\x78\xb1\xa3\x26\xb6\x95\x84\xd3\x05\x6f\x25\xbf\x41\x05\x83\xfa\x52\xfa\xea\xe3\xad\xe4\xd7\x45\xb3\x7c\xd9\x2c\x27\xbc\x96\x17\xed\x87\xeb\xa5\x50\x6f\x8b\xaa\xac\x1a\xf4\xc2\x33\xa7\x56\x36\x61\x47\x9f\xb6\xb8\x59\x74\x5c\xdd\x7c\x1a\x6b\x54\xd3\x17\x5c\x4a\x36\xe7\xc9\xbe\x2a\x0c\x2b\x06\x3f\x8c\x48\x5b\x39\x73\x52\x5b\x52\x5e\x2b\x3f\x25\xec\xca\x2c\x25\x19\x03\x7d\x61\x9b\xfe\xd0\xe5\xce\x2e\x34\x94\x1b\x6e\xcd\x7b\x6b\xad\x6b\x65\xb7\x2f\x1b\x8c\x80\x77\x33\xc1\x0b\x26\x61\xc1\x32\xd3\x77\x28\xf7\xab\x33\x8e\x19\x56\x93\xa2\x8b\x58\xb4\xf2\xed\x9f\x43\x56\x0b\x6e\xa0\x18\x43\x4a\xa6\x76\xd3\x77\x29\x67\x14\xe6\x79\x5d\x4d\x5d\x24\xd3\xa2\x43\x7e\x2f\x06\x00\x64\x69\x80\x74\x13\xcc\x7b\x53\xcb\x7b\x13\xc6\x77\x23\x47\x21\xcf\x99\xd9\xdb\x65\x0b\x7f\x9d\x5b\xde\x85\x81\xca\x0b\xc9\xdd\x14\xbc\x3d\xef\x35\x5d\xa0\x2e\x4b\xf5\x17\x96\xcb\x12\x58\x96\xd1\x1a\xd6\xda\x1e\x9a\x3a\x0f\xf7\x67\xb8\x23\x6a\x7a\x8e\xa7\xa2\x47\xa4\xc4\x6f\x98\x5a\x24\x87\x3a\x3a\xae\xe0\x29\x01\x94\x39\x54\x22\x51\xf2\xd1\xa9\x70\x04\x41\x79\x1a\xfb\xee\x84\x54\xb8\xd7\xbb\x8d\xea\xf6\x64\xc2\x0b\xc0\x96\xa4\xbd\x20\x17\xf7\x68\xb5\x32\x45\x54\x5b\x96\x4a\x87\x34\x30\x62\xc1\x0a\x3c\x54\xf6\x3d\x9e\x10\xa8\xcc\xf1\x35\xf3\x0e\xf5\xe4\xb4\x5c\x72\x73\xaa\xa2\x1d\x24\x13\x72\x8a\x97\x02\xac\x40\xae\xa4\xe2\xcb\x11\x48\x5d\xb6\x9e\x8b\x3b\x9e\xaf\xac\xd0\xa1\x18\x41\xb4\x28\xa5\xba\x40\x89\x8e\x48\x81\x76\x66\x10\xbb\xa1\x6c\xe5\xf3\x60\xb0\xf8\xf4\x44\xb9\x98\xc1\x27\x56\xe4\xae\xe8\x2e\x01\x37\xe0\x08\xa2\x8b\xf1\x38\x32\x2e\xbb\xc3\xe2\x12\x22\x5c\xaa\xf8\x05\xfe\x8b\xa3\x03\xca\x64\xd0\x38\x1d\xd8\xd4\x79\x7a\x83\xfe\xa0\x03\x76\x74\xc1\x19\x9a\x16\x4d\x48\x87\x8a\xd1\xc6\xe9\xf1\x37\x28\x91\x6b\x4e\x5f\x44\x2f\x4b\xc3\x46\x2f\x9e\x6e\xce\x01\x68\x72\x98\xe8\x13\x02\x7a\x28\xeb\xbb\x11\x98\x18\x3d\xd0\x3e\x8f\x6e\x1f\x1e\x0f\xac\x8d\xb5\x69\xbe\x0a\x24\x60\xd4\xc6\x89\xb1\x92\x2d\x38\xde\x13\x0a\xd6\x6b\x10\xb3\x1d\xd7\x87\x90\xc6\xaf\x3a\xe4\x68\x4d\x0d\x84\x24\x8a\x8c\x3f\xee\xf6\xf8\xc2\xf6\xd1\x16\xfe\xae\x4f\x61\x67\xdc\x57\x71\x80\x36\x8f\xfe\x6f\xb0\xa7\x5f\xcf\x41\x63\xaf\xfc\x80\xea\xdb\x07\xe3\xd4\x64\x3f\x06\xd3\xb2\x5a\xbd\x7d\xfd\x5d\xdc\x8c\xc0\x6f\xff\x8c\x49\x8e\xca\x03\xe3\xd5\xb6\x69\x6b\x1b\xec\x62\xd5\xb5\x4a\xbb\x41\x69\xa2\x4c\x4f\xa5\xc1\x4e\x19\x41\xb0\x5d\x49\x60\x2d\xdb\x96\x9b\x9d\xdf\xed\x4f\xa7\xac\x7a\x4b\x0a\xf6\xf2\x1d\xce\xff\x5a\x9c\x1f\x8a\xdc\xa3\xc9\xb2\x47\x24\xa8\x0a\x63\xef\x7c\xbd\x92\x06\xad\x77\x2c\x1f\x27\x4c\x72\x38\xc3\x35\xfc\xf6\xf5\x77\x23\x9d\xcd\xa2\x8d\x35\x71\xaf\x71\xfd\x16\x68\x15\x5c\x5c\xc2\x19\x76\x30\x8f\x3a\x73\x41\xce\x81\x23\xe7\x13\xfc\x42\xe1\x85\x2b\xf5\x68\x73\xb1\x6f\xd0\xba\x9d\xea\x8a\xfc\xa6\xa6\x40\x0d\x8a\xa3\x5d\xb8\xaa\x84\xaa\xc9\x73\xfd\x9e\x76\x39\x9e\xa1\x7d\x21\xa1\x6c\x70\xe3\xb6\xc6\x2b\x6d\x4a\x3a\xb8\x43\x9b\xde\xd2\x1a\xb0\xbe\xfb\x89\x96\x02\x05\x3b\x52\x80\x97\xa5\xa2\xd3\xc4\x08\x12\x61\x69\x4d\xb1\x60\xf7\x1c\xec\x2d\x21\xfb\x0d\x12\x3d\xce\x44\xa7\xc7\xe8\x40\x9d\x3e\x3b\x84\x7a\xdf\xa2\x86\x67\xb3\x29\xa1\xc0\x28\xc2\x4d\x6a\x5f\x2d\xf8\xca\x45\xc6\x5d\x2e\xd1\x3f\xee\xc7\x6b\xb7\xdd\x52\x2e\xbb\x4b\x3b\x93\xbf\xf6\x0e\xb6\x0c\xef\x06\x7e\xbc\xa7\xa7\x11\xa5\xf8\xf6\x1c\x07\x3d\xc2\x36\xfc\xd9\x32\xd8\xce\xde\xa1\xd0\xb0\x9f\xb8\x76\x7b\x86\x49\x34\x27\x28\x55\x48\x6b\xd4\x28\x43\xf5\x38\x07\x15\xf6\x76\x40\xaa\x57\xd9\xec\x8d\x47\x6d\x7b\x57\x14\x8c\x32\xb6\xd8\x76\x40\xca\xc6\x68\x68\x18\xdb\xdb\x04\x67\x5a\xcf\x67\x3b\x20\x45\xaf\xd1\xed\x35\x46\x1e\xa5\x65\xdc\x17\x34\xa7\x99\x0e\xc0\xfe\xd7\x2f\xbe\xf0\xf3\x53\x23\x78\xa0\x24\x8c\x0e\x77\x56\x35\x47\x13\x87\xe9\xf5\xc0\x0a\x0d\x4b\x9b\x04\x5a\x50\x99\x52\x78\xdf\x03\xae\x1f\x33\x0b\x7f\xfd\x51\xf8\x1a\x96\xc6\x81\x69\x71\xb4\x48\x1c\x0c\x98\xd9\x7a\x94\x9e\x80\x59\x2f\xd9\xf7\xc7\xcb\xcc\xa0\xa7\x07\xcc\x4e\x89\x7f\x5d\x62\x93\xf4\xfa\xd5\x57\x83\x21\x30\x8c\x61\xb7\x91\x71\x14\x0c\x4d\x02\x40\x3a\xae\xfc\x98\xd7\x96\xf9\xd3\x07\x0b\xc3\x69\x3d\xd1\x34\x07\x94\xc0\x19\x78\xb5\x97\x89\x40\x17\x72\x37\x67\x31\x34\xc4\x2c\xde\xce\x43\x24\x23\x88\x3c\x99\xb9\x80\xcf\x3f\xcb\x3e\x8f\x46\x9d\x31\xdc\xd8\x68\x8e\xe0\x84\x0f\x49\x73\x78\x72\x54\x6f\x30\xa8\x37\x14\xd3\xdb\x84\xc7\x47\xf4\x64\x95\x7c\x79\x98\x09\x3e\x51\xec\x84\xa9\xd1\x93\xb6\x20\x3b\xe8\x46\x65\x7c\x05\x74\x5d\x9c\xa8\x80\x5c\x4b\xcf\x30\xd8\x31\x09\xce\x49\x55\x1d\x61\x42\xed\x8d\x04\xb9\xd8\x79\xe8\x7c\x5d\x0a\x06\x01\x3b\x3e\x5c\xae\x6f\xbe\xc0\x95\x7f\xcf\x6a\x51\x36\x12\x70\x3b\x41\x2b\x0c\xf7\xe5\x60\x3c\xde\xdd\x7c\x63\xb4\x23\x46\xa0\xc3\x65\x26\x89\x8e\x8b\x24\xb1\xaa\xe0\x88\x69\xed\xd7\x05\xba\xc9\x40\xcd\x9a\x0b\x1c\xe1\xf5\x55\xf7\x2c\x47\x5e\x44\x11\xc5\x25\xcd\xab\xfd\x37\x17\x6c\x11\x83\x46\x33\x42\x6e\xe3\x9b\x35\xff\x10\x86\x5b\xdb\xd7\xa0\x63\xbc\xdd\x6e\xd8\xf3\x36\x31\x89\x37\x5a\x67\xe3\xf1\x7e\xb5\x80\x0a\x83\xa8\x5c\x61\xd2\x06\xcf\xa0\xab\x05\xa2\x6d\xfd\x38\x5d\xb4\x65\x53\x4a\x5b\x07\x34\x25\xd7\xc1\xa1\x4e\xa4\x13\x47\x79\x63\xde\xbb\x50\xa7\x6d\xb8\xd9\x3e\xcf\x8a\x26\x63\x34\xd6\xf8\xf7\x79\x7b\x88\xcb\xfe\xd4\xc1\xb6\x0e\x42\x3d\x57\x36\x79\x56\x7c\xae\xda\xd5\x6b\x66\xf9\xd9\x87\xc8\x18\x9f\x56\x83\x1a\xaa\xbc\x66\x0f\x64\x64\x36\xf6\xb7\xfb\xe6\x3e\xe0\x8f\x2d\xca\x69\xc1\xeb\x92\x4e\x57\x78\xf4\xc6\xab\x51\xc1\xa9\x65\x45\xc9\x59\x62\xb0\x5a\x56\x5d\x72\x0e\x45\xae\xc1\xd2\xf1\x1c\x8e\x0b\x1a\x8b\x99\x5e\x10\xd4\xec\x35\xaf\x38\x46\x18\x6d\xb7\x6f\xe5\x33\xe6\x69\xd4\x16\x72\x6c\x7d\x76\xdb\xf2\xeb\x12\x5b\x41\x64\xd9\x1f\x25\xb6\x87\x99\xea\xbb\xc8\x05\xa8\x7f\xe3\xa2\xf1\x54\xfa\xfd\xde\x88\x70\xea\x5a\x5c\xb1\x25\xcf\xdb\xa2\x78\x92\x83\x5c\xba\x67\x32\xf8\xbc\x93\x22\x43\xfd\x6d\x36\x84\xd0\x48\x9f\x66\x59\xbc\x07\x95\x91\x77\x69\x56\x7c\x8f\x11\xaf\x36\x6b\xd2\x91\xc6\x3e\x22\x5b\x1a\x10\x05\x6c\x3b\x4a\xd1\x0c\x61\x98\xc0\xe5\x25\xfc\xc2\xe1\x39\x1e\xe3\x69\x2e\x73\xed\x10\x25\x9c\xb5\x98\xc2\x84\x03\x5e\x9d\x54\xa0\x11\xaf\x0d\x3b\xea\xa0\x96\x74\x06\x6f\xab\x58\x64\x70\x3c\xea\xd7\xb3\x52\x82\xde\xd5\x42\x8b\x65\xc6\x44\x6e\xea\x83\xec\x5a\x19\x1a\x21\x22\xb2\x05\x9b\x2e\xed\xd1\xaa\xde\x4b\x7b\x33\xdf\x58\x2d\xab\xbd\x94\x5f\xaf\x79\x8e\x01\xfa\x19\x16\xe8\xc4\x68\xa9\xec\x88\x6b\xb2\x2d\xd1\x96\x19\xc8\xc3\xf1\x19\x9e\x4f\x69\x0a\x2c\xac\xb4\xf6\x64\x59\x53\x74\x4b\xdf\x5b\xd9\x2c\x71\x23\x43\xc8\x12\xb7\xd5\xb3\xb1\x73\x8a\x77\x96\xcc\x1b\xc5\xea\xeb\xc7\xaa\x8b\x88\x1d\xd5\x2d\x02\x31\x1b\xa4\xd6\x16\x07\xb6\x84\xec\x23\xb9\xdb\xcf\xdc\x9f\x91\xb7\x84\x1e\x6d\x6a\x76\x0f\xd0\xac\x0b\x4f\x5a\x6f\x06\x42\xf2\x53\x88\xbb\xe9\xa3\x9c\x11\x12\xdb\x64\xbd\x1e\x9f\xfd\xf9\x1f\xff\xcf\x8f\x7f\xfa\xfb\x1f\xff\xee\x9f\x7e\xfc\xff\x7f\xfc\xcb\xdf\xfe\xdf\x7f\xfd\xe7\x7f\xf9\xf3\x9f\xfe\xdf\x8f\xff\xf0\xc7\xbf\xfc\xf1\x6f\x76\x18\xbc\x35\xfe\x71\x6c\xf4\x49\xfd\x11\xea\xe6\x6c\x08\xf4\xce\x62\xf0\x67\xf6\x11\x03\x1d\x1a\xa7\x0d\xde\x38\xa2\x7a\xfb\x8a\x7b\xa2\x87\xcd\xa6\xbb\x35\x95\x98\xbf\x1c\xca\x68\xee\xee\x4f\xba\xf9\xf0\xfe\xd4\x82\xad\x9c\xfd\x60\xba\x90\xed\x0e\x1d\xbe\x39\x85\x60\x16\x73\x57\x23\xd0\x3b\x2b\x3f\xb6\x63\xe7\x1a\x0c\xa2\x0d\x35\xf5\x88\xa3\x8f\x15\x58\x10\x54\x21\x44\x56\x98\x17\x41\x38\xb0\x62\xbf\xe6\xaa\x05\x42\xa7\xb5\x2d\xd5\x07\x35\xf2\xa9\xcb\xb6\x77\x10\xa7\x93\xad\x14\xed\x5b\xbb\x3b\x52\x45\xc0\x0e\x2d\xdf\x7e\x09\xfd\x99\xe9\x7b\x34\x6a\x5b\x12\xdf\x4f\xfb\x1d\xcc\x7d\x71\xdf\x7a\xec\x3c\xd1\x83\x8e\xd0\xb7\xf6\xa1\x46\x03\x2e\x81\x90\x34\xae\x45\xac\x4d\x69\x92\xf9\xc2\xb3\xe9\x75\x5c\x3b\x9a\x73\x65\xae\xff\xf4\x6d\x46\xf4\x50\xba\x26\xa3\x2a\x5f\x73\xf5\xb1\x5e\xc2\x31\xa6\xe3\xf9\x81\x72\x83\x6e\xd9\xc3\xf8\x0c\x5e\x15\xf9\x4a\x5f\x25\x86\x08\xeb\xd6\x92\xd2\x9e\x72\x61\x4d\x16\x8a\x2a\x62\x5f\xcc\x44\xe1\x01\x5c\x4d\xd9\x52\x2d\xfc\xea\xe3\x72\x29\x14\xda\x9d\x59\xa3\xef\x3b\xc2\xf8\x85\x28\xb0\x3a\xf7\x6c\x4c\x23\xea\xe9\xf7\xaa\xad\x03\xd6\x63\xab\xcd\x3a\xfc\xa3\x15\xb3\x1d\x1a\x78\x71\x38\x30\xd0\x46\x06\x06\x33\xf9\xc3\xa9\xfc\xc1\x5c\xbe\x5e\x3b\x98\x1e\x76\xce\x8d\xc3\xd0\x57\x21\x1f\xef\xe3\x18\x57\x5b\x87\x72\x30\xfc\x86\xba\x09\x3e\xbb\x8f\x46\xa0\x29\xdb\x7a\x3a\xcf\xb0\x81\x0b\x4e\xb9\xab\x5e\x63\xac\x15\x95\x78\x56\xe1\x59\x33\x9b\xf1\x3a\x46\x5c\xfd\x0a\x7b\xf0\x0b\x4a\x28\x4e\x11\xec\xde\x7f\x77\xf0\x46\x1c\x77\x1d\xee\xb1\x19\xdb\x97\x4f\x6f\xdf\x50\xed\xa0\x7d\x77\xf8\x6f\xdc\x96\x1c\x62\x7f\x30\x71\x6e\xf7\x4c\x47\x85\x11\x17\x44\xb4\x18\x81\xac\xef\xcd\xb3\xbb\xde\x90\x3c\xfb\xdd\x9b\x15\x8f\x3d\xc5\x1b\xc8\x66\xe2\x1d\x87\x73\x8c\xc7\xb1\x71\x0b\x6f\xf8\x9b\x66\x22\xa7\xb5\x98\x98\x4b\x88\xb6\x8e\xd5\x6e\x36\xfe\x25\x2f\xe8\xe5\xf7\xb5\x41\x1d\x5d\xdf\xfb\x2d\x35\x10\xfe\x42\xce\xf5\x24\x93\x83\x12\x45\x92\x81\x81\x86\x2e\xc2\xde\x11\x55\x8f\xed\xeb\x75\xe7\x86\x14\x76\xc7\x3d\x06\x1d\x7b\xe7\x10\x76\x39\xe2\xce\xa1\x16\xf2\xc1\xd3\x4d\x9d\xbb\x95\x53\x47\x58\x3a\x33\x92\xf8\xbc\x1d\xb8\x6b\x68\x3f\x04\x2a\x44\xf9\x98\x2b\x87\x82\x21\xc8\x9d\xb3\x4c\xd8\xc8\x7f\xf1\xd7\xbf\xac\xa8\xa5\xc8\xc1\x03\xce\xa4\x5f\x9d\x68\x5c\x40\x77\x4e\x78\x3c\xc8\x4d\xeb\xa4\x9b\x8a\x90\xc5\x5e\x0b\xda\xd9\x46\x74\xf9\xc2\x75\xd1\xdb\xc6\xcb\xd2\xb6\x2d\xb6\x6a\xc2\x4e\xbd\xca\xc8\x93\x0f\xef\x24\xca\xe9\x57\x19\x79\x70\x5c\x81\xf9\x61\xe2\x7a\xd3\x03\x80\xb3\x2e\x75\x5b\xd2\xee\xdc\x50\x44\x23\x6d\x67\xa6\x86\xc6\xf1\x72\x23\x48\xb2\xf5\xba\x4b\xf6\xfe\x1c\xdd\x52\xce\x49\x55\xbe\x90\xf3\xe1\x94\xc8\x6e\xad\x70\xdf\xe9\xdc\x3d\x27\x0e\x96\x72\x9e\x3e\xd7\x3b\x64\x7f\x8d\x6c\x5f\x51\x87\x95\xe5\x81\xa3\xbe\x44\x1e\x8a\x9b\xb7\x45\x8e\x3d\xf2\xb2\x1d\xda\xd6\x13\x3e\xa2\xc8\x11\x43\x35\x50\x4e\x7e\x8f\xc5\x3b\x14\xb9\x96\x8e\x5f\xf6\xb2\x98\x17\xac\x58\xe9\xa0\xce\x39\xe6\x70\x6d\x31\x8f\xb9\x51\xb2\xc1\x58\x07\xa6\xcc\x10\x3d\x54\x9d\x85\x14\x98\xb0\xa5\xc3\x67\xa4\x0e\x07\xf1\x1e\xc8\xab\xe2\xb8\x64\xf9\x8f\xa0\x98\x76\xf6\x3a\x97\x51\xea\x0f\x65\x5b\x3a\x77\x64\xd0\x8c\x8f\x53\xf0\x07\xa6\x81\x70\x84\x16\x6c\xe2\xad\x28\xad\xd1\x90\xb4\x0f\x48\x36\x21\x71\x7a\xca\x3f\xaa\xc5\x5c\x37\x73\x17\x27\xd3\x69\x70\x40\xd7\x47\xa6\xf0\xb2\xb4\x11\x1c\x04\x68\xf2\x90\xda\x0a\x6c\xeb\xef\x28\x6b\x1e\xfd\x2f\x2d\x89\x11\x1d\x9d\x68\xc7\x6e\x4f\x79\x7c\x65\xa2\x20\x93\xb2\xcc\x01\xec\x31\x0f\xea\xf6\x3b\x7b\x08\x84\x68\x66\x3f\xf3\x9a\xce\x80\x68\x26\x6c\xeb\xe8\x03\x27\xc0\xf6\x30\x21\x41\x84\x26\xce\x24\xe8\x78\x92\x6e\x94\xb5\xb6\x1d\x7b\x8e\x80\xf5\x2e\x0c\x57\xe4\x54\x4c\xd3\x9b\x66\x92\x0b\xb9\x88\x89\x3b\x93\x1d\x96\x50\x2a\xca\x9d\x4d\x6e\x8f\xe1\x31\x92\x9d\x29\xab\x6b\xc1\xe5\x08\x1d\x79\x2c\x90\x34\xf1\xb2\x96\x5d\x24\x97\xdb\x10\xb5\xdd\xd8\x7f\xf4\xc8\xe3\x0a\xde\xd2\xbf\xb3\xfe\xb1\xe7\x08\x9e\xd0\x29\xb1\x4f\x78\x4a\x0c\xeb\xae\x7d\x7f\xd9\x93\x3d\x8c\x69\x52\xee\x1d\xf5\x39\xc5\xb2\xa4\xcc\x9a\x7d\x77\x42\x2d\xa0\xd7\xfb\xc0\xb5\x38\x38\xed\x7f\xef\x6b\x71\x5a\xec\x76\x6d\xdd\x41\xb3\x89\xc4\x86\xd7\xa7\x94\xfa\x0d\xdf\x89\xe3\x6f\x46\xbe\xe5\xea\xed\x7b\xc1\x29\x77\xdd\xd8\xc2\xb3\xbe\xe6\x97\xbb\x16\x89\x9b\x0d\xd5\x9c\xb9\x4b\x6f\x82\xa0\xd7\x94\xf6\x2d\x95\x88\x1a\xf6\xa8\x5d\xbf\x96\xec\x39\x3f\x64\x9f\xec\x16\x91\x6d\xd7\x90\x75\x2a\xf6\xdd\xe6\x65\x45\xbc\xb7\x62\xac\x77\x7b\x27\x07\xdf\x43\xe4\xa3\x2f\xa1\xc1\x09\x0d\x15\xbd\x0c\x99\x16\xae\xd6\x65\x80\x1a\xbd\xfb\xeb\x71\x97\xd0\x58\xdb\xe3\xaf\x76\xdd\xcc\x00\xca\x47\x98\x43\x30\x6c\x0f\xb5\x76\xce\x8e\x8e\xb4\x96\xce\x71\x36\x4e\x4f\x4d\x44\xef\x35\x35\xc7\x9a\x56\xb2\x3a\x6e\xdc\xdd\xd2\x84\xae\x71\xe5\x4b\x09\x59\x58\xfd\x06\x16\xe5\xcd\xf7\xd8\x57\xdd\x63\x77\xee\xff\xb0\x8b\x6a\xf7\x28\x22\xa6\x5d\xc7\x01\x93\x0b\xa9\x69\x75\xe6\x0b\x39\xdf\xb6\xb8\xce\x35\xae\x3f\x8f\xd9\x75\xac\xa5\x7c\xa8\x62\xc0\x92\x7c\xd0\xcc\x72\x03\x69\x99\x73\xe0\x12\x8f\x0d\xff\x36\x00\x55\x49\xec\x04\x60\x6e\x00\x00")
 
 func baronNamePbBaronGoTmplBytes() ([]byte, error) {
 	return bindataRead(
@@ -93,8 +93,8 @@ func baronNamePbBaronGoTmpl() (*asset, error) {
 		return nil, err
 	}
 
-	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 28258, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
-	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0x6f, 0xd, 0x1d, 0x1, 0x41, 0xb3, 0xce, 0xd8, 0xe8, 0xab, 0x49, 0x19, 0x6f, 0xf5, 0x89, 0x29, 0x8, 0x10, 0x73, 0x1a, 0xe7, 0x3f, 0x3b, 0x3d, 0x18, 0x62, 0xbe, 0xfd, 0xed, 0x95, 0x95, 0x35}}
+	info := bindataFileInfo{name: "baron/NAME.pb.baron.go.tmpl", size: 28256, mode: os.FileMode(0644), modTime: time.Unix(1464111000, 0)}
+	a := &asset{bytes: bytes, info: info, digest: [32]uint8{0xa3, 0xc3, 0xfe, 0x57, 0xd0, 0x28, 0x89, 0x99, 0x58, 0x35, 0x49, 0x59, 0x73, 0x77, 0x80, 0xeb, 0xe7, 0xcf, 0x7d, 0x48, 0xdd, 0x1b, 0x97, 0xd4, 0xa7, 0x83, 0xf7, 0x8f, 0x74, 0x7d, 0xfe, 0xde}}
 	return a, nil
 }
 
-- 
2.43.0

