// Command genprep renders the generated file of one definition, with the
// generator of the current tree.
//   genprep <proto> <out> <transport> <go files...>
// With PROJECT set, the files of the project go there too.
package main

import (
	"fmt"
	"io"
	"io/ioutil"
	"os"
	"path/filepath"
	"strings"

	"github.com/sirupsen/logrus"

	"github.com/teamlint/baron/gengokit"
	"github.com/teamlint/baron/gengokit/generator"
	"github.com/teamlint/baron/svcdef"
)

func main() {
	logrus.SetOutput(ioutil.Discard)
	proto, out, transport := os.Args[1], os.Args[2], os.Args[3]
	read := func(p string) io.Reader {
		b, err := ioutil.ReadFile(p)
		if err != nil {
			fail(err)
		}
		return strings.NewReader(string(b))
	}
	files := map[string]io.Reader{}
	for _, p := range os.Args[4:] {
		files[filepath.Base(p)] = read(p)
	}
	sd, err := svcdef.New(files, map[string]io.Reader{filepath.Base(proto): read(proto)})
	if err != nil {
		fail(err)
	}
	conf := gengokit.Config{
		GoPackage: "example.com/api-service", PBPackage: "example.com/api", PBPath: filepath.Dir(out),
		Version: "1", VersionDate: "now", Transport: transport,
		GenClient: os.Getenv("CLIENT") != "",
	}
	if err := generator.GenerateBaronFile(sd, conf, out); err != nil {
		fail(err)
	}
	dir := os.Getenv("PROJECT")
	if dir == "" {
		return
	}
	project, err := generator.GenerateGokit(sd, conf)
	if err != nil {
		fail(err)
	}
	for name, r := range project {
		p := filepath.Join(dir, name)
		if err := os.MkdirAll(filepath.Dir(p), 0755); err != nil {
			fail(err)
		}
		b, err := ioutil.ReadAll(r)
		if err != nil {
			fail(err)
		}
		if err := ioutil.WriteFile(p, b, 0644); err != nil {
			fail(err)
		}
	}
}

func fail(err error) {
	fmt.Fprintln(os.Stderr, err)
	os.Exit(3)
}
