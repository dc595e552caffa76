package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
)

// genFailure: the generator refuses the definition, or what it writes does not compile.
type genFailure struct{ what, out string }

func (g *genFailure) Error() string { return g.what + "\n" + g.out }

var extImport = regexp.MustCompile(`(?m)^(\s*(?:import\s+)?(?:[A-Za-z_.]\w*\s+)?)"((?:github\.com/(?:go-kit/kit|gorilla/mux|nats-io/nats\.go)|google\.golang\.org/(?:grpc|protobuf))(?:/[^"]*)?)"`)

// prepare renders the generated code the harness runs against with the
// generator of the current tree: "api" writes the file for the definition in
// harness/<harness>/pb and rewrites the imports of packages that are not in
// the module cache to the stand-ins in harness/ext.
func (r *Runner) prepare(u Unit) (map[string]string, []string, error) {
	if u.Prepare == "cmd" {
		return r.prepareCmd()
	}
	transport, ok := map[string]string{"api": "all", "api-http": "http", "words": "all", "srv": "all", "srv-http": "http", "srv-grpc": "grpc", "srv-nats": "nats", "cli": "all", "cli-http": "http", "cli-grpc": "grpc", "cli-nats": "nats"}[u.Prepare]
	if !ok {
		return nil, nil, fmt.Errorf("unknown preparation %q", u.Prepare)
	}
	work, err := os.MkdirTemp(r.tmp, "gen")
	if err != nil {
		return nil, nil, err
	}
	base := filepath.Join(repoDir, "internal/zzverif")
	of := filepath.Join(work, "overlay.json")
	b, _ := json.Marshal(map[string]any{"Replace": map[string]string{filepath.Join(base, "genprep/main.go"): filepath.Join(verifDir, "harness/genprep/main.go")}})
	if err := os.WriteFile(of, b, 0644); err != nil {
		return nil, nil, err
	}
	bin := filepath.Join(work, "genprep")
	cmd := exec.Command("go", "build", "-overlay", of, "-o", bin, verifRoot+"/genprep")
	cmd.Dir = repoDir
	if out, err := cmd.CombinedOutput(); err != nil {
		return nil, nil, fmt.Errorf("cannot build the generator: %v\n%s", err, out)
	}
	pb := filepath.Join(verifDir, "harness", u.Harness, "pb")
	gen := filepath.Join(work, "api.pb.baron.go")
	cmd = exec.Command(bin, filepath.Join(pb, "api.proto"), gen, transport, filepath.Join(pb, "api.pb.go"), filepath.Join(pb, "api_grpc.pb.go"))
	cmd.Dir = work
	project := ""
	if strings.HasPrefix(u.Prepare, "srv") || strings.HasPrefix(u.Prepare, "cli") {
		project = filepath.Join(work, "project")
		cmd.Env = append(os.Environ(), "PROJECT="+project, "CLIENT="+strings.TrimPrefix(u.Prepare[:3], "srv"))
	}
	if out, err := cmd.CombinedOutput(); err != nil {
		return nil, nil, &genFailure{"the generator fails on the definition", string(out)}
	}
	src, err := os.ReadFile(gen)
	if err != nil {
		return nil, nil, &genFailure{"the generator writes no file", err.Error()}
	}
	if u.Prepare == "words" {
		text, err := usedWords(src)
		if err != nil {
			return nil, nil, &genFailure{"the generated file is not valid Go", err.Error()}
		}
		w := filepath.Join(work, "words.go")
		if err := os.WriteFile(w, text, 0644); err != nil {
			return nil, nil, err
		}
		return map[string]string{filepath.Join(base, u.Harness, "words.go"): w}, nil, nil
	}
	rewritten := extImport.ReplaceAllString(string(src), `${1}"`+verifRoot+`/ext/${2}"`)
	if err := os.WriteFile(gen, []byte(rewritten), 0644); err != nil {
		return nil, nil, err
	}
	ov := map[string]string{}
	if err := overlayDir(ov, filepath.Join(verifDir, "harness/ext"), filepath.Join(base, "ext")); err != nil {
		return nil, nil, err
	}
	ov[filepath.Join(base, u.Harness, "pb", "api.pb.baron.go")] = gen
	// the definition's own code uses the well-known types and grpc
	for _, name := range []string{"api.pb.go", "api_grpc.pb.go"} {
		own, err := os.ReadFile(filepath.Join(pb, name))
		if err != nil {
			return nil, nil, err
		}
		ownFile := filepath.Join(work, name)
		if err := os.WriteFile(ownFile, extImport.ReplaceAll(own, []byte(`${1}"`+verifRoot+`/ext/${2}"`)), 0644); err != nil {
			return nil, nil, err
		}
		ov[filepath.Join(base, u.Harness, "pb", name)] = ownFile
	}
	if project != "" {
		if err := r.projectFiles(ov, project, u.Harness); err != nil {
			return nil, nil, err
		}
	}
	return ov, nil, nil
}

var stdImport = regexp.MustCompile(`(?m)^(\s*(?:import\s+)?(?:[A-Za-z_.]\w*\s+)?)"(log|net|net/http|net/http/pprof|os/signal)"`)

// projectFiles makes the generated project's packages importable: server and
// the command with the network, signals and logging replaced by harness/ext/std
// and the service replaced by the harness's own, and the service as generated.
func (r *Runner) projectFiles(ov map[string]string, project, harness string) error {
	h := verifRoot + "/" + harness + "/"
	return filepath.Walk(project, func(p string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(project, p)
		to := ""
		src := string(b)
		parts := strings.Split(filepath.ToSlash(rel), "/")
		dir := strings.Join(parts[:len(parts)-1], "/")
		if (harness == "cli") != strings.HasSuffix(dir, "-client") {
			return nil
		}
		switch {
		case strings.HasSuffix(dir, "/server") || dir == "server":
			to = "server"
			src = stdImport.ReplaceAllString(src, `${1}"`+verifRoot+`/ext/std/${2}"`)
			src = strings.ReplaceAll(src, `"example.com/api-service/service"`, `service "`+h+`mine"`)
		case strings.HasSuffix(dir, "/service") || dir == "service":
			to = "service"
		case strings.Contains(dir, "cmd/"):
			to = harness + "main"
			src = stdImport.ReplaceAllString(src, `${1}"`+verifRoot+`/ext/std/${2}"`)
			src = mainClause.ReplaceAllString(src, "package "+to) + "\n\n// Main is the command.\nfunc Main() { main() }\n"
		default:
			return nil
		}
		src = extImport.ReplaceAllString(src, `${1}"`+verifRoot+`/ext/${2}"`)
		src = strings.ReplaceAll(src, `"example.com/api"`, `"`+h+`pb"`)
		src = strings.ReplaceAll(src, `"example.com/api-service/`, `"`+h)
		w := filepath.Join(project, "..", "zz_"+to+"_"+filepath.Base(p))
		if err := os.WriteFile(w, []byte(src), 0644); err != nil {
			return err
		}
		ov[filepath.Join(repoDir, "internal/zzverif", harness, to, filepath.Base(p))] = w
		return nil
	})
}

// blameGenerated tells whether load errors are in the generated file and are
// not about something the stand-ins lack.
func blameGenerated(errs []string) bool {
	found := false
	for _, e := range errs {
		if strings.Contains(e, "/zzverif/ext/") || strings.Contains(e, "could not import") {
			return false
		}
		if strings.Contains(e, "api.pb.baron.go") || strings.Contains(e, "/srv/server/") || strings.Contains(e, "/srv/srvmain/") || strings.Contains(e, "/srv/service/") || strings.Contains(e, "/cli/climain/") {
			found = true
		}
		for _, p := range []string{"proto.", "protojson.", "mux.", "nats.", "grpc.", "metadata.", "endpoint.", "httptransport.", "grpctransport.", "natstransport.", "wrapperspb.", "timestamppb.", "durationpb.", "structpb.", "anypb.", "emptypb.", "fieldmaskpb.", "http.", "net.", "signal.", "pprof.", "log.", "service."} {
			if strings.Contains(e, "undefined: "+p) || strings.Contains(e, "undefined (type "+p) {
				return false
			}
		}
	}
	return found
}

var mainClause = regexp.MustCompile(`(?m)^package main\b`)

// prepareCmd copies the command (package main in cmd/baron) into an importable
// package, with the version compiled in and main exported.
func (r *Runner) prepareCmd() (map[string]string, []string, error) {
	work, err := os.MkdirTemp(r.tmp, "cmd")
	if err != nil {
		return nil, nil, err
	}
	files, _ := filepath.Glob(filepath.Join(repoDir, "cmd/baron/*.go"))
	ov := map[string]string{}
	dst := filepath.Join(repoDir, "internal/zzverif/baronmain")
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, nil, err
		}
		w := filepath.Join(work, filepath.Base(f))
		if err := os.WriteFile(w, mainClause.ReplaceAll(b, []byte("package baronmain")), 0644); err != nil {
			return nil, nil, err
		}
		ov[filepath.Join(dst, filepath.Base(f))] = w
	}
	w := filepath.Join(work, "zz_verif.go")
	const text = "package baronmain\n\nvar zzVersion = zzSetVersion()\n\nfunc zzSetVersion() int { version, date = \"v1\", \"d1\"; return 0 }\n\n// Main is the command.\nfunc Main() { main() }\n"
	if err := os.WriteFile(w, []byte(text), 0644); err != nil {
		return nil, nil, err
	}
	ov[filepath.Join(dst, "zz_verif.go")] = w
	if err := overlayDir(ov, filepath.Join(verifDir, "harness/vexec"), filepath.Join(repoDir, "internal/zzverif/vexec")); err != nil {
		return nil, nil, err
	}
	return ov, nil, nil
}

// usedWords writes the identifiers in a generated file that are not names the
// file declares for its users.
func usedWords(src []byte) ([]byte, error) {
	f, err := parser.ParseFile(token.NewFileSet(), "", src, 0)
	if err != nil {
		return nil, err
	}
	all, declared := map[string]bool{}, map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.Ident:
			all[n.Name] = true
		case *ast.FuncDecl:
			declared[n.Name.Name] = true
		case *ast.TypeSpec:
			declared[n.Name.Name] = true
		case *ast.StructType:
			for _, f := range n.Fields.List {
				for _, id := range f.Names {
					declared[id.Name] = true
				}
			}
		}
		return true
	})
	for k := token.BREAK; k <= token.VAR; k++ {
		all[k.String()] = true
	}
	up := map[string]bool{}
	for w := range all {
		w = strings.ToUpper(w[:1]) + w[1:]
		if w[0] >= 'A' && w[0] <= 'Z' && !declared[w] {
			up[w] = true
		}
	}
	var list []string
	for w := range up {
		list = append(list, w)
	}
	sort.Strings(list)
	return []byte(fmt.Sprintf("package complete\n\nvar usedWords = %#v\n", list)), nil
}
