// Package gen builds the real plugin from /repo, runs it on generated proto
// files, and loads descriptors, generated Go code and export data.
package gen

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protodesc"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/reflect/protoregistry"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/dynamicpb"
	"google.golang.org/protobuf/types/pluginpb"
)

// Repo is the tree under verification.
var Repo = func() string {
	if d := os.Getenv("PGVC_REPO"); d != "" { // development only
		return d
	}
	return "/repo"
}()

// Env is a scratch directory with the tools built from Repo.
type Env struct {
	Dir    string
	keep   bool
	goenv  []string
	Plugin string
}

func run(dir string, env []string, stdin []byte, name string, args ...string) (string, string, error) {
	c := exec.Command(name, args...)
	c.Dir = dir
	c.Env = env
	if stdin != nil {
		c.Stdin = bytes.NewReader(stdin)
	}
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	err := c.Run()
	return o.String(), e.String(), err
}

// New creates the scratch directory and builds the plugin.
func New() (*Env, error) {
	d, err := os.MkdirTemp("", "pgvc-")
	if err != nil {
		return nil, err
	}
	e := &Env{Dir: d}
	cache := os.Getenv("PGVC_GOCACHE")
	if cache == "" {
		cache = filepath.Join(d, "gocache")
		if _, err := os.Stat("/opt/vp/gocache"); err == nil {
			exec.Command("cp", "-a", "/opt/vp/gocache", cache).Run()
		}
	}
	for _, kv := range os.Environ() {
		k := kv[:strings.IndexByte(kv, '=')]
		switch k {
		case "GOCACHE", "GOFLAGS", "GOPROXY", "GOTOOLCHAIN", "CGO_ENABLED", "GOBIN", "GOWORK", "GOMODCACHE", "GOPATH", "HOME":
			continue
		}
		e.goenv = append(e.goenv, kv)
	}
	e.goenv = append(e.goenv, "HOME=/root", "GOCACHE="+cache, "GOFLAGS=", "GOPROXY=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0", "GOMODCACHE=/root/go/pkg/mod", "GOPATH=/root/go", "GOWORK=off", "GONOSUMDB=*", "GONOSUMCHECK=1", "GOFLAGS=")
	bin := filepath.Join(d, "bin")
	os.MkdirAll(bin, 0o755)
	e.Plugin = filepath.Join(bin, "protoc-gen-validate")
	if _, se, err := run(Repo, e.goenv, nil, "go", "build", "-mod=readonly", "-o", e.Plugin, "."); err != nil {
		e.Close()
		return nil, fmt.Errorf("building the plugin: %v\n%s", err, se)
	}
	if _, se, err := run(Repo, e.goenv, nil, "go", "build", "-mod=readonly", "-o", filepath.Join(bin, "protoc-gen-go"), "google.golang.org/protobuf/cmd/protoc-gen-go"); err != nil {
		e.Close()
		return nil, fmt.Errorf("building protoc-gen-go: %v\n%s", err, se)
	}
	return e, nil
}

func (e *Env) Close() {
	if os.Getenv("PGVC_KEEP") == "" {
		os.RemoveAll(e.Dir)
	} else {
		fmt.Fprintln(os.Stderr, "kept", e.Dir)
	}
}

// Go runs the go tool with the scratch environment.
func (e *Env) Go(dir string, args ...string) (string, string, error) {
	return run(dir, e.goenv, nil, "go", args...)
}

// File is one proto file of the corpus.
type File struct {
	Name string // base name without .proto
	Body string // after the header
	Pkg  string // go package directory (default: the world's)
	Head string // replaces the standard header when set
}

// World is a corpus after generation and compilation.
type World struct {
	E        *Env
	Name     string
	Dir      string // Go module root
	ProtoDir string
	Files    []File
	Refused  map[string]string // file -> plugin message
	Uncomp   map[string]string // file -> compiler message
	FDS      *descriptorpb.FileDescriptorSet
	Reg      *protoregistry.Files
	Gen      *protogen.Plugin
	RulesExt map[string]protoreflect.ExtensionType
	Exports  map[string]string
	GoMsg    map[string]*protogen.Message // "pkgpath.GoName" -> message
	GoEnum   map[string]*protogen.Enum
	pkgFiles map[string][]string
	names    []string
	FromSet  bool // FDS, not the proto files, is what is generated from
}

// Header of every corpus file.
func (w *World) head(f File) string {
	if f.Head != "" {
		return strings.ReplaceAll(f.Head, "%W", w.Name)
	}
	return "syntax = \"proto3\";\npackage " + w.Name + ";\noption go_package = \"pgvc.test/" + w.pkg(f) + ";" + filepath.Base(w.pkg(f)) + "\";\nimport \"validate/validate.proto\";\nimport \"google/protobuf/wrappers.proto\";\nimport \"google/protobuf/any.proto\";\nimport \"google/protobuf/duration.proto\";\nimport \"google/protobuf/timestamp.proto\";\n"
}

func (w *World) pkg(f File) string {
	if f.Pkg != "" {
		return f.Pkg
	}
	return w.Name
}

func (w *World) protoc(args ...string) (string, error) {
	a := append([]string{"-I", w.ProtoDir, "-I", Repo, "-I", "/usr/include"}, args...)
	if w.FromSet {
		a = append([]string{"--descriptor_set_in=" + filepath.Join(w.Dir, "fds.bin")}, args...)
	}
	env := append([]string{}, w.E.goenv...)
	for i, kv := range env {
		if strings.HasPrefix(kv, "PATH=") {
			env[i] = "PATH=" + filepath.Join(w.E.Dir, "bin") + ":" + kv[5:]
		}
	}
	_, se, err := run(w.Dir, env, nil, "protoc", a...)
	return se, err
}

// Protoc runs protoc in dir on the files under src, with the built plugins and
// more environment variables.
func (e *Env) Protoc(dir, src string, more []string, args ...string) (string, error) {
	a := append([]string{"-I", src, "-I", Repo, "-I", "/usr/include"}, args...)
	set := map[string]bool{"PATH": true}
	for _, kv := range more {
		set[kv[:strings.IndexByte(kv, '=')]] = true
	}
	var env []string
	for _, kv := range e.goenv {
		if !set[kv[:strings.IndexByte(kv, '=')]] {
			env = append(env, kv)
		}
	}
	env = append(append(env, "PATH="+filepath.Join(e.Dir, "bin")+":"+os.Getenv("PATH")), more...)
	_, se, err := run(dir, env, nil, "protoc", a...)
	return se, err
}

// Stage writes the proto files and loads their descriptors.
func (e *Env) Stage(name string, files []File) (*World, error) {
	w := &World{E: e, Name: name, Files: files, Refused: map[string]string{}, Uncomp: map[string]string{}, GoMsg: map[string]*protogen.Message{}, GoEnum: map[string]*protogen.Enum{}, pkgFiles: map[string][]string{}, RulesExt: map[string]protoreflect.ExtensionType{}}
	w.Dir = filepath.Join(e.Dir, "w-"+name)
	w.ProtoDir = filepath.Join(w.Dir, "proto")
	os.MkdirAll(w.ProtoDir, 0o755)
	var names []string
	for _, f := range files {
		n := f.Name + ".proto"
		os.MkdirAll(filepath.Dir(filepath.Join(w.ProtoDir, n)), 0o755)
		if err := os.WriteFile(filepath.Join(w.ProtoDir, n), []byte(w.head(f)+f.Body), 0o644); err != nil {
			return nil, err
		}
		names = append(names, n)
	}
	if se, err := w.protoc(append([]string{"--include_imports", "--experimental_allow_proto3_optional", "--descriptor_set_out=" + filepath.Join(w.Dir, "fds.bin")}, names...)...); err != nil {
		return nil, fmt.Errorf("protoc: %v\n%s", err, trunc(noWarn(se), 1500))
	}
	b, err := os.ReadFile(filepath.Join(w.Dir, "fds.bin"))
	if err != nil {
		return nil, err
	}
	w.FDS = &descriptorpb.FileDescriptorSet{}
	if err := proto.Unmarshal(b, w.FDS); err != nil {
		return nil, err
	}
	w.names = names
	return w, w.load()
}

// load reads the descriptors of w.FDS.
func (w *World) load() error {
	names := w.names
	var err error
	w.GoMsg, w.GoEnum = map[string]*protogen.Message{}, map[string]*protogen.Enum{}
	w.Reg, err = protodesc.NewFiles(w.FDS)
	if err != nil {
		return err
	}
	fd, err := w.Reg.FindFileByPath("validate/validate.proto")
	if err != nil {
		return err
	}
	for i := 0; i < fd.Extensions().Len(); i++ {
		x := fd.Extensions().Get(i)
		w.RulesExt[string(x.FullName())] = dynamicpb.NewExtensionType(x)
	}
	req := &pluginpb.CodeGeneratorRequest{FileToGenerate: names, ProtoFile: w.FDS.File, CompilerVersion: &pluginpb.Version{Major: proto.Int32(3), Minor: proto.Int32(21), Patch: proto.Int32(12)}}
	// protogen wants the plain messages (extensions unparsed is fine)
	w.Gen, err = protogen.Options{}.New(req)
	if err != nil {
		return err
	}
	var rec func(m *protogen.Message)
	rec = func(m *protogen.Message) {
		w.GoMsg[string(m.GoIdent.GoImportPath)+"."+m.GoIdent.GoName] = m
		for _, en := range m.Enums {
			w.GoEnum[string(en.GoIdent.GoImportPath)+"."+en.GoIdent.GoName] = en
		}
		for _, x := range m.Messages {
			rec(x)
		}
	}
	for _, f := range w.Gen.Files {
		for _, m := range f.Messages {
			rec(m)
		}
		for _, en := range f.Enums {
			w.GoEnum[string(en.GoIdent.GoImportPath)+"."+en.GoIdent.GoName] = en
		}
	}
	return nil
}

// GenGo generates and compiles the Go code of the corpus. Files the plugin
// refuses, or whose code does not compile, are left out and recorded.
func (w *World) GenGo() error {
	if err := w.genGoFiles(); err != nil {
		return err
	}
	os.WriteFile(filepath.Join(w.Dir, "go.mod"), []byte("module pgvc.test\n\ngo 1.21\n\nrequire (\n\tgoogle.golang.org/protobuf v1.26.0\n\tgithub.com/envoyproxy/protoc-gen-validate v0.0.0\n)\nreplace github.com/envoyproxy/protoc-gen-validate => "+Repo+"\n"), 0o644)
	sum, _ := os.ReadFile(filepath.Join(Repo, "go.sum"))
	os.WriteFile(filepath.Join(w.Dir, "go.sum"), sum, 0o644)
	for round := 0; round < 6; round++ {
		_, se, err := w.E.Go(w.Dir, "build", "-mod=mod", "-gcflags=-e", "./...")
		if err == nil {
			return w.loadExports()
		}
		// drop the files the compiler complains about
		dropped := 0
		for _, f := range w.Files {
			if w.Refused[f.Name] != "" || w.Uncomp[f.Name] != "" {
				continue
			}
			base := "/" + filepath.Base(f.Name) + ".pb.validate.go"
			for _, l := range strings.Split(se, "\n") {
				if strings.Contains(l, base+":") {
					w.Uncomp[f.Name] = l
					w.rmFile(f)
					dropped++
					break
				}
			}
		}
		if dropped == 0 {
			return fmt.Errorf("go build of the corpus: %s", trunc(se, 4000))
		}
	}
	return fmt.Errorf("go build of the corpus did not settle")
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (w *World) rmFile(f File) {
	os.Remove(filepath.Join(w.Dir, w.pkg(f), filepath.Base(f.Name)+".pb.validate.go"))
}

// ValidatePath is the generated validator of a file.
func (w *World) ValidatePath(f File) string {
	return filepath.Join(w.Dir, w.pkg(f), filepath.Base(f.Name)+".pb.validate.go")
}

func (w *World) genGoFiles() error {
	var names []string
	for _, f := range w.Files {
		names = append(names, f.Name+".proto")
	}
	if se, err := w.protoc(append([]string{"--experimental_allow_proto3_optional", "--go_out=module=pgvc.test:" + w.Dir}, names...)...); err != nil {
		return fmt.Errorf("protoc-gen-go: %v\n%s", err, trunc(noWarn(se), 1500))
	}
	arg := "--validate_out=lang=go,module=pgvc.test:" + w.Dir
	out := filepath.Join(w.Dir, "vout")
	os.MkdirAll(out, 0o755)
	arg = "--validate_out=lang=go:" + out
	byPkg := map[string][]File{}
	for _, f := range w.Files {
		byPkg[w.pkg(f)] = append(byPkg[w.pkg(f)], f)
	}
	var pkgs []string
	for p := range byPkg {
		pkgs = append(pkgs, p)
	}
	sort.Strings(pkgs)
	for _, p := range pkgs {
		var ns []string
		for _, f := range byPkg[p] {
			ns = append(ns, f.Name+".proto")
		}
		if _, err := w.protoc(append([]string{arg}, ns...)...); err != nil {
			var wg sync.WaitGroup
			var mu sync.Mutex
			sem := make(chan bool, 8)
			for _, f := range byPkg[p] {
				f := f
				wg.Add(1)
				go func() {
					defer wg.Done()
					sem <- true
					defer func() { <-sem }()
					if se, err := w.protoc(arg, f.Name+".proto"); err != nil {
						mu.Lock()
						w.Refused[f.Name] = trunc(noWarn(se), 2000)
						mu.Unlock()
					}
				}()
			}
			wg.Wait()
		}
	}
	// move the generated validators beside the protoc-gen-go output
	for _, f := range w.Files {
		if w.Refused[f.Name] != "" {
			continue
		}
		b, err := os.ReadFile(filepath.Join(out, "pgvc.test", w.pkg(f), filepath.Base(f.Name)+".pb.validate.go"))
		if err != nil {
			w.Refused[f.Name] = "no output: " + err.Error()
			continue
		}
		if err := os.WriteFile(w.ValidatePath(f), b, 0o644); err != nil {
			return err
		}
	}
	os.RemoveAll(out)
	return nil
}

func (w *World) loadExports() error {
	o, se, err := w.E.Go(w.Dir, "list", "-mod=mod", "-export", "-deps", "-json=ImportPath,Export,Dir,GoFiles,Standard", "./...")
	if err != nil {
		return fmt.Errorf("go list -export: %v\n%s", err, trunc(se, 2000))
	}
	w.Exports = map[string]string{}
	dec := json.NewDecoder(strings.NewReader(o))
	for dec.More() {
		var p struct {
			ImportPath, Export, Dir string
			GoFiles                 []string
		}
		if err := dec.Decode(&p); err != nil {
			return err
		}
		w.Exports[p.ImportPath] = p.Export
		if strings.HasPrefix(p.ImportPath, "pgvc.test") {
			for _, g := range p.GoFiles {
				w.pkgFiles[p.ImportPath] = append(w.pkgFiles[p.ImportPath], filepath.Join(p.Dir, g))
			}
		}
	}
	return nil
}

// PkgFiles lists the Go files of a corpus package by import path.
func (w *World) PkgFiles(path string) []string { return w.pkgFiles[path] }

// Packages lists the corpus packages.
func (w *World) Packages() []string {
	var out []string
	for p := range w.pkgFiles {
		out = append(out, p)
	}
	sort.Strings(out)
	return out
}

// Option reads an extension of the options message; nil when absent.
func (w *World) Option(opts protoreflect.ProtoMessage, ext string) protoreflect.Value {
	xt := w.RulesExt[ext]
	if xt == nil || opts == nil {
		return protoreflect.Value{}
	}
	b, err := proto.Marshal(opts)
	if err != nil {
		return protoreflect.Value{}
	}
	var types protoregistry.Types
	types.RegisterExtension(xt)
	n := opts.ProtoReflect().New().Interface()
	if err := (proto.UnmarshalOptions{Resolver: &types}).Unmarshal(b, n); err != nil {
		return protoreflect.Value{}
	}
	var out protoreflect.Value
	n.ProtoReflect().Range(func(fd protoreflect.FieldDescriptor, v protoreflect.Value) bool {
		if string(fd.FullName()) == ext {
			out = v
			return false
		}
		return true
	})
	return out
}

var T0 = time.Now()

// Logf writes progress when PGVC_V is set.
func Logf(f string, a ...any) {
	if os.Getenv("PGVC_V") != "" {
		fmt.Fprintf(os.Stderr, "[%6.1fs] %s\n", time.Since(T0).Seconds(), fmt.Sprintf(f, a...))
	}
}

// noWarn drops protoc's warnings.
func noWarn(s string) string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		if !strings.Contains(l, ": warning: ") {
			out = append(out, l)
		}
	}
	return strings.Join(out, "\n")
}
