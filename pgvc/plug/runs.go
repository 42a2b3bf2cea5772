package plug

import (
	"fmt"
	"strings"

	"google.golang.org/protobuf/types/descriptorpb"

	"pgvc/gen"
)

// RunCase is a run of the whole module on some files.
type RunCase struct {
	Files []gen.File
	Param string
	Want  bool // refused
	Prop  string
	What  string
}

// RunCases places a bad field everywhere a run has to look.
func RunCases() []RunCase {
	bads := []struct{ prop, name, field string }{
		{"C01", "a rule of another type", "int32 bad = 1 [(validate.rules).string.min_len = 1];"},
		{"C02", "contradictory numeric rules", "int32 bad = 1 [(validate.rules).int32 = {lt: 5, lte: 5}];"},
		{"C03", "contradictory string rules", "string bad = 1 [(validate.rules).string = {len: 5, min_len: 5}];"},
		{"", "", "int32 good = 1 [(validate.rules).int32.lt = 5];"},
	}
	places := []struct{ name, body string }{
		{"in the only message", "message A { @ }"},
		{"in the last message", "message A { int32 x = 1; } message B { string s = 1 [(validate.rules).string.len = 1]; } message C { @ }"},
		{"in a nested message", "message A { int32 x = 9; message B { @ } }"},
		{"in a message nested twice", "message A { message B { int32 y = 1; message C { @ } } }"},
		{"in a message nested in a disabled one", "message A { option (validate.disabled) = true; message B { @ } }"},
		{"in a message nested in an ignored one", "message A { option (validate.ignored) = true; message B { @ } }"},
		{"after a disabled message", "message A { option (validate.disabled) = true; int32 x = 1 [(validate.rules).string.len = 1]; } message B { @ }"},
		{"in a member of a oneof", "message A { oneof o { int32 x = 8; bool y = 9; } oneof p { bool z = 7; @ } }"},
		{"beside good fields", "message A { int32 x = 8 [(validate.rules).int32.gt = 1]; @ string z = 9 [(validate.rules).string.len = 1]; }"},
	}
	var out []RunCase
	for bi, b := range bads {
		for i, p := range places {
			out = append(out, RunCase{Files: []gen.File{{Name: fmt.Sprintf("run%d_%d", bi, i), Body: strings.ReplaceAll(p.body, "@", b.field)}},
				Want: b.prop != "", Prop: b.prop, What: b.name + " " + p.name})
		}
		for i := 0; i < 3; i++ {
			var fs []gen.File
			for k := 0; k < 3; k++ {
				body := "message A { int32 x = 1 [(validate.rules).int32.gt = 1]; }"
				if k == i {
					body = "message A { message I { " + b.field + " } }"
				}
				fs = append(fs, gen.File{Name: fmt.Sprintf("runs%d_%d_%d", bi, i, k), Body: body})
			}
			out = append(out, RunCase{Files: fs, Want: b.prop != "", Prop: b.prop, What: fmt.Sprintf("%s in file %d of 3", b.name, i+1)})
		}
	}
	for i := range out {
		for k := range out[i].Files { // one package: unique names
			f := &out[i].Files[k]
			f.Body = strings.ReplaceAll(f.Body, "message ", "message "+strings.ToUpper(f.Name[:1])+f.Name[1:]+"_")
		}
		out[i].Param = "lang=go"
		if out[i].Prop == "" {
			out[i].Prop = "C01"
		}
	}
	good := []gen.File{{Name: "rungood", Body: "message RunGood { int32 x = 1 [(validate.rules).int32.gt = 1]; }"}}
	for _, p := range []string{"", "lang=", "lang=rust", "lang=GO", "paths=source_relative", "lang=go ", "lang=ccc"} {
		out = append(out, RunCase{Files: good, Param: p, Want: true, Prop: "C25", What: fmt.Sprintf("parameters %q", p)})
	}
	for _, p := range []string{"lang=go", "lang=cc", "lang=java", "lang=go,paths=source_relative"} {
		out = append(out, RunCase{Files: good, Param: p, Prop: "C25", What: fmt.Sprintf("parameters %q", p)})
	}
	return out
}

// RunMiss is a run the module judged wrongly.
type RunMiss struct {
	C    RunCase
	Why  string
	Text string
}

// RunAll runs the cases.
func (r *Real) RunAll(e *gen.Env, cs []RunCase) ([]RunMiss, error) {
	seen := map[string]bool{}
	var fs []gen.File
	for _, c := range cs {
		for _, f := range c.Files {
			if !seen[f.Name] {
				seen[f.Name] = true
				fs = append(fs, f)
			}
		}
	}
	w, err := e.Stage("wruns", fs)
	if err != nil {
		return nil, err
	}
	byName := map[string]*descriptorpb.FileDescriptorProto{}
	for _, f := range w.FDS.File {
		byName[f.GetName()] = f
	}
	var jobs []realJob
	for _, c := range cs {
		var fds []*descriptorpb.FileDescriptorProto
		for _, f := range c.Files {
			fds = append(fds, byName[f.Name+".proto"])
		}
		jobs = append(jobs, realJob{Req: r.request(fds, c.Param), Execute: true})
	}
	rs, err := r.run(jobs)
	if err != nil {
		return nil, err
	}
	var out []RunMiss
	for i, c := range cs {
		if rs[i].Fatal != "" {
			return nil, fmt.Errorf("plugcheck: %s", rs[i].Fatal)
		}
		why, refused := rs[i].Refused[""]
		if refused != c.Want {
			t := "the run is refused (" + why + ") for " + c.What
			if c.Want {
				t = "the run is not refused for " + c.What
			}
			out = append(out, RunMiss{c, why, t})
		}
	}
	return out, nil
}
