// Package start holds the harness for the start command.
package start

import (
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"

	st "github.com/teamlint/baron/internal/start"
	"github.com/teamlint/baron/internal/zzverif/rt"
	"github.com/teamlint/baron/internal/zzverif/rt/strsref"
	sp "github.com/teamlint/baron/svcdef/svcparse"
)

// Entries lists the harness functions.
var Entries = map[string]func(){"Create": Create, "Existing": Existing, "Failing": Failing, "Long": Long}

type file struct {
	name, content string
	dir           bool
}

func list(root string) []file {
	var out []file
	filepath.Walk(root, func(p string, info os.FileInfo, err error) error {
		if err != nil || p == root {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		f := file{name: filepath.ToSlash(rel), dir: info.IsDir()}
		if !f.dir {
			b, _ := ioutil.ReadFile(p)
			f.content = string(b)
		}
		out = append(out, f)
		return nil
	})
	return out
}

func lower(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'A' && c <= 'Z' {
			b[i] = c + 32
		}
	}
	return string(b)
}

func drop(s, cut string) string {
	out := ""
	for i := 0; i < len(s); {
		if strings.HasPrefix(s[i:], cut) {
			i += len(cut)
			continue
		}
		out += s[i : i+1]
		i++
	}
	return out
}

const letters = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"

func project() (name, fileBase, service string) {
	n := rt.String("first", 1, 1, letters) + rt.String("rest", 0, rt.Param("len", 3), letters+"0123456789_- ")
	name = n
	plain := n
	switch rt.Choice("suffix", 4) {
	case 1:
		name = n + ".proto"
	case 2:
		m := rt.String("mid", 1, 1, letters+"-_")
		name = n + ".proto" + m
		plain = n + m
	case 3:
		name, plain = "", "start"
	}
	return name, baseOf(plain), serviceOf(plain)
}

func outDir() string {
	return rt.Pick("out", "", ".", "sub", "sub/deep dir", "./x/../y")
}

// Create: exactly one valid proto is written.
func Create() {
	root := rt.ScratchDir()
	rt.Assert(os.Chdir(root) == nil, "chdir")
	name, base, svcName := project()
	create(root, name, base, svcName, outDir())
}

// Long: long names and deep directories.
func Long() {
	root := rt.ScratchDir()
	rt.Assert(os.Chdir(root) == nil, "chdir")
	more := []int{12, 16, 17, 24, 32, 33, 65, 100, 128, 200}
	n := rt.Choice("count", 10+len(more))
	if n > 9 {
		n = more[n-10]
	}
	first := rt.String("first", 1, 1, "aB")
	c := rt.String("char", 1, 1, "aZ0_ -p")
	plain, suffix, dir := first, "", ""
	switch rt.Choice("what", 6) {
	case 0:
		plain += strings.Repeat(c, n)
	case 1:
		plain += strings.Repeat(c+"b", n/2)
	case 2:
		plain += strings.Repeat("- "+c+"Q", n/4)
	case 3:
		suffix = strings.Repeat(".proto", n/6)
		plain += c
	case 4:
		if n > 33 {
			n = 33
		}
		dir = strings.Repeat("d"+c+"/", n)
	case 5:
		dir = strings.Repeat("../", n%3) + "x" + strings.Repeat(c, n)
	}
	if dir != "" {
		// directories outside the scratch directory stay alone
		deep := filepath.Join(root, "in", "deep")
		os.MkdirAll(deep, 0755)
		rt.Assert(os.Chdir(deep) == nil, "chdir")
		create2(root, "in/deep", plain+suffix, baseOf(plain), serviceOf(plain), dir)
		return
	}
	create(root, plain+suffix, baseOf(plain), serviceOf(plain), dir)
}

func baseOf(plain string) string { return lower(drop(drop(plain, "-"), " ")) + ".proto" }

func serviceOf(plain string) string {
	us := []byte(plain)
	for i, c := range us {
		if c == '-' || c == ' ' {
			us[i] = '_'
		}
	}
	return strsref.GoCamelCase(string(us))
}

func create(root, name, base, svcName, dir string) { create2(root, "", name, base, svcName, dir) }

// create2 runs the start command in the directory cwd of root.
func create2(root, cwd, name, base, svcName, dir string) {
	if rt.Bool("dirExists") {
		os.MkdirAll(filepath.Join(root, cwd, dir), 0755)
	}
	code := st.Do(name, dir)
	rt.Observe("code", code)
	rt.Assert(code == 0, "the start command fails")
	want := filepath.ToSlash(filepath.Join(cwd, dir, base))
	var files []file
	for _, f := range list(root) {
		if !f.dir {
			files = append(files, f)
		}
	}
	rt.Assert(len(files) == 1, "the start command does not write exactly one file")
	rt.Observe("file", files[0].name)
	rt.Assert(files[0].name == want, "the start command writes to the wrong file")
	svc, err := sp.ParseService(sp.NewSvcLexer(strings.NewReader(files[0].content)))
	rt.Assert(err == nil, "the written definition does not parse")
	rt.Assert(svc.Name == svcName, "the written service has the wrong name")
	rt.Assert(len(svc.Methods) == 1 && len(svc.Methods[0].HTTPBindings) == 1, "the written service does not have its method")
	rt.Assert(strings.Contains(files[0].content, "package "+strings.TrimSuffix(base, ".proto")+";"), "the written package name is wrong")
	// a second run must refuse
	code = st.Do(name, dir)
	rt.Assert(code != 0, "a second start over the same file is not refused")
	after := list(root)
	n := 0
	for _, f := range after {
		if !f.dir {
			n++
			rt.Assert(f == files[0], "a second start changes the file")
		}
	}
	rt.Assert(n == 1, "a second start writes another file")
	rt.Reach("created")
}

// Existing: an existing file is never touched.
func Existing() {
	root := rt.ScratchDir()
	rt.Assert(os.Chdir(root) == nil, "chdir")
	name, base, _ := project()
	dir := outDir()
	os.MkdirAll(filepath.Join(root, dir), 0755)
	content := rt.String("content", 0, 2, "")
	p := filepath.Join(root, dir, base)
	if rt.Bool("isDir") {
		os.MkdirAll(p, 0755)
	} else {
		ioutil.WriteFile(p, []byte(content), 0644)
	}
	other := filepath.Join(root, dir, "other.proto")
	ioutil.WriteFile(other, []byte("keep"), 0644)
	before := list(root)
	code := st.Do(name, dir)
	rt.Observe("code", code)
	rt.Assert(code != 0, "an existing file is not refused")
	after := list(root)
	rt.Assert(len(after) == len(before), "a refused start creates or removes files")
	for i := range after {
		rt.Assert(after[i] == before[i], "a refused start changes a file")
	}
	rt.Reach("refused")
}

// Failing: a directory that cannot be created is reported.
func Failing() {
	root := rt.ScratchDir()
	rt.Assert(os.Chdir(root) == nil, "chdir")
	name, _, _ := project()
	ioutil.WriteFile(filepath.Join(root, "blocked"), []byte("x"), 0644)
	code := st.Do(name, rt.Pick("dir", "blocked", "blocked/sub"))
	rt.Observe("code", code)
	rt.Assert(code != 0, "a failure to create the directory or file is not reported")
	after := list(root)
	rt.Assert(len(after) == 1 && after[0].content == "x", "a failed start changes files")
	rt.Reach("reported")
}
