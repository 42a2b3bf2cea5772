package gen

import (
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"

	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/reflect/protoreflect"
	"google.golang.org/protobuf/types/descriptorpb"
)

// CC is the generated C++ of a world.
type CC struct {
	W       *World
	Dir     string            // generated sources
	PCH     string            // precompiled header of all generated headers
	Refused map[string]string // file -> plugin message
	Uncomp  map[string]string // file -> compiler message
}

// CCFlags are the options of the project's C++ build.
var CCFlags = []string{"-std=c++14", "-Wno-everything"}

// Inc are the include directories.
func (c *CC) Inc() []string { return []string{c.Dir, Repo} }

// Files lists the files with generated code.
func (c *CC) Files() []File {
	var out []File
	for _, f := range c.W.Files {
		if c.Refused[f.Name] == "" && c.Uncomp[f.Name] == "" {
			out = append(out, f)
		}
	}
	return out
}

// Src is the generated validator of a file.
func (c *CC) Src(f File) string { return filepath.Join(c.Dir, f.Name+".pb.validate.cc") }

// Clang runs clang++ in the directory of the generated sources.
func (c *CC) Clang(args ...string) (string, error) {
	cmd := exec.Command("timeout", append([]string{"-k", "5", "400", "clang++"}, args...)...)
	cmd.Dir = c.Dir
	var se strings.Builder
	cmd.Stderr = &se
	err := cmd.Run()
	return se.String(), err
}

// Headers is the text that includes what generated sources include.
func (c *CC) Headers() string {
	b := "#include <google/protobuf/message.h>\n#include <google/protobuf/util/time_util.h>\n#include \"re2/re2.h\"\n#include <set>\n#include <unordered_set>\n#include <sstream>\n#include \"validate/validate.h\"\n"
	for _, f := range c.Files() {
		b += "#include \"" + f.Name + ".pb.validate.h\"\n"
	}
	return b
}

// Par runs f on 0..n-1, eight at a time.
func Par(n int, f func(i int)) {
	sem := make(chan bool, 8)
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		i := i
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			f(i)
		}()
	}
	wg.Wait()
}

var ccName = regexp.MustCompile(`([A-Za-z0-9_/.]+)\.pb\.validate\.(cc|h):\d+:\d+: (fatal )?error: (.*)`)

// GenCC generates the C++ code of the corpus.
func (w *World) GenCC() (*CC, error) {
	c := &CC{W: w, Dir: filepath.Join(w.Dir, "cc"), Refused: map[string]string{}, Uncomp: map[string]string{}}
	os.MkdirAll(c.Dir, 0o755)
	var names []string
	for _, f := range w.Files {
		names = append(names, f.Name+".proto")
	}
	if se, err := w.protoc(append([]string{"--experimental_allow_proto3_optional", "--cpp_out=" + c.Dir, "validate/validate.proto"}, names...)...); err != nil {
		return nil, fmt.Errorf("protoc --cpp_out: %v\n%s", err, trunc(noWarn(se), 1500))
	}
	arg := "--validate_out=lang=cc:" + c.Dir
	if _, err := w.protoc(append([]string{arg}, names...)...); err != nil {
		var mu sync.Mutex
		Par(len(w.Files), func(i int) {
			f := w.Files[i]
			if se, err := w.protoc(arg, f.Name+".proto"); err != nil {
				mu.Lock()
				c.Refused[f.Name] = trunc(noWarn(se), 2000)
				mu.Unlock()
			}
		})
	}
	for _, f := range w.Files {
		if c.Refused[f.Name] == "" {
			if _, err := os.Stat(c.Src(f)); err != nil {
				c.Refused[f.Name] = "no output: " + err.Error()
			}
		}
	}
	for round := 0; round < 6; round++ {
		h := filepath.Join(c.Dir, "all.h")
		if err := os.WriteFile(h, []byte(c.Headers()), 0o644); err != nil {
			return nil, err
		}
		c.PCH = filepath.Join(c.Dir, "all.pch")
		se, err := c.Clang(append(append([]string{}, CCFlags...), "-I.", "-I"+Repo, "-x", "c++-header", h, "-o", c.PCH)...)
		if err == nil {
			return c, nil
		}
		n := 0
		for _, m := range ccName.FindAllStringSubmatch(se, -1) {
			k := strings.TrimPrefix(m[1], c.Dir+"/")
			k = strings.TrimPrefix(k, "./")
			for _, f := range c.Files() {
				if f.Name == k {
					c.Uncomp[k] = m[4]
					n++
				}
			}
		}
		if n == 0 {
			return nil, fmt.Errorf("compiling the generated headers: %s", trunc(se, 3000))
		}
	}
	return c, nil
}

// StripRules takes the options off fields (all but the rules are defaults) and
// loads the descriptors again.
func (w *World) StripRules(fields map[protoreflect.FullName]bool) error {
	for _, f := range w.FDS.File {
		var rec func(prefix string, m *descriptorpb.DescriptorProto)
		rec = func(prefix string, m *descriptorpb.DescriptorProto) {
			n := prefix + "." + m.GetName()
			for _, fd := range m.Field {
				if fields[protoreflect.FullName(strings.TrimPrefix(n+"."+fd.GetName(), "."))] {
					fd.Options = nil
				}
			}
			for _, x := range m.NestedType {
				rec(n, x)
			}
		}
		for _, m := range f.MessageType {
			rec("."+f.GetPackage(), m)
		}
	}
	b, err := proto.Marshal(w.FDS)
	if err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(w.Dir, "fds.bin"), b, 0o644); err != nil {
		return err
	}
	w.FromSet = true
	return w.load()
}
