package plug

import (
	"crypto/sha256"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"pgvc/gen"
)

// OutMiss is a run of the plugin whose outputs are not what they should be.
type OutMiss struct {
	Key, Text string
	Data      map[string]any
}

// outFile is an input of the output runs.
type outFile struct {
	Path string // with .proto
	Body string
}

func outName(i int, s string) outFile {
	return outFile{Path: s + ".proto", Body: fmt.Sprintf("syntax = \"proto3\";\npackage out.n%d;\noption go_package = \"pgvc.test/out/n%d\";\nimport \"validate/validate.proto\";\nmessage Msg { int32 x = 1 [(validate.rules).int32.gt = 1]; }\n", i, i)}
}

// OutFiles are files of many names, places and options.
func OutFiles() []outFile {
	var out []outFile
	names := []string{"a", "plain", "snake_case_name", "camelCase", "PascalCase", "iPhone", "aB", "HTTPServer", "with-dash", "with.dot", "dots.and-dash_x", "num1ber", "1num", "n1_2b", "x__y", "_lead", "trail_", "UPPER", "a1", "a1b2c3", "A1b", "v1beta1", "validate", "sub/dir/file", "sub/dir/file_two", "sub.dot/file", "sub-dash/a_b", "dir/dir/dir", "x.pb", "x.proto2", "go/go", "msg", "Msg", "java", "out", "pgvc.test/out"}
	parts := []string{"a", "B", "aB", "Ab", "1", "_", "-", ".", "a1b", "A_b", "zZ9"}
	for _, p := range parts {
		for _, q := range parts {
			for _, r := range []string{"", "q", "_Q"} {
				names = append(names, p+q+r)
			}
		}
	}
	seen := map[string]bool{}
	for _, n := range names {
		if strings.HasPrefix(n, ".") || strings.HasPrefix(n, "-") || seen[strings.ToLower(n)] {
			continue
		}
		seen[strings.ToLower(n)] = true
		out = append(out, outName(len(out), n))
	}
	body := "message Msg { int32 x = 1 [(validate.rules).int32.gt = 1]; }\n"
	k := 0
	add := func(path, head, body string) {
		k++
		if !strings.Contains(head, "go_package") {
			head += fmt.Sprintf("option go_package = \"pgvc.test/out/o%d\";\n", k)
		}
		if !strings.Contains(head, "package out") && !strings.Contains(head, "nopackage") {
			head = fmt.Sprintf("package out.o%d;\n", k) + head
		}
		out = append(out, outFile{Path: path, Body: "syntax = \"proto3\";\n" + strings.ReplaceAll(head, "nopackage", "") + body})
	}
	v := "import \"validate/validate.proto\";\n"
	vs := []string{v, "import \"google/protobuf/any.proto\";\n" + v, v + "import \"google/protobuf/any.proto\";\n", ""}
	for i, imp := range vs {
		b := body
		if imp == "" {
			b = "message Msg { int32 x = 1; }\n"
		}
		for j, opt := range []string{"", "option java_package = \"com.ex.p%d\";\n", "option java_outer_classname = \"Outer_%d\";\n", "option java_package = \"com.ex.q%d\";\noption java_outer_classname = \"lower%d\";\n",
			"option java_multiple_files = true;\n", "option java_multiple_files = false;\noption java_outer_classname = \"F%d\";\n", "option java_multiple_files = true;\noption java_package = \"com.ex.r%d\";\n", "option java_multiple_files = true;\noption java_outer_classname = \"Unused%d\";\n",
			"option java_package = \"\";\noption java_outer_classname = \"Root%d\";\n", "option cc_enable_arenas = true;\n"} {
			n := i*100 + j
			o := strings.ReplaceAll(opt, "%d", fmt.Sprint(n))
			bb := b
			if strings.Contains(o, "multiple_files = true") {
				bb += "message Second { Msg m = 1; message In { int32 y = 1; } enum InE { IZ = 0; } }\nmessage under_score { int32 z = 1; }\nmessage lowerCase1x { int32 z = 1; }\nmessage ABCd { int32 z = 1; }\nenum Top { ZERO = 0; }\nmessage X1y_z2 { int32 z = 1; }\n"
			}
			add(fmt.Sprintf("opt/java_%d.proto", n), "import \"google/protobuf/any.proto\";\n"[:0]+imp+o, bb)
		}
	}
	// names that clash with the class of the file
	for i, b := range []string{"message Clash0 { int32 x = 1; }", "message Msg { message Clash1 { int32 x = 1; } }", "message Msg { message In { message Clash2 {} } }", "enum Clash3 { C3Z = 0; }", "message Msg { enum Clash4 { C4Z = 0; } }",
		"message Msg { message In { enum Clash5 { C5Z = 0; } } }", "message Msg {} service Clash6 { rpc Do(Msg) returns (Msg); }", "message Msg { int32 Clash7 = 1; }", "message clash8 { int32 x = 1; }", "message Msg { oneof Clash9 { int32 a = 1; } }", "message Msg {} service S { rpc Clash10(Msg) returns (Msg); }", "enum En { Clash11 = 0; }"} {
		add(fmt.Sprintf("clash/clash%d.proto", i), v, b+"\n")
	}
	// Go packages
	for i, g := range []string{"pgvc.test/g/deep/er/pkg", "pgvc.test/g;other", "pgvc.test/g/x;x", "pgvc.test/g/with-dash;dash", "pgvc.test/g/v2", "pgvc.test/g/pgvc.test/g/again", "pgvc.test/g/gpk/pgvc.test"} {
		add(fmt.Sprintf("gp/gpk%d.proto", i), fmt.Sprintf("option go_package = \"%s\";\n", g)+v, body)
	}
	add("gp/pgvc.test.proto", "option go_package = \"pgvc.test/g/p\";\n"+v, body)
	add("nopkg.proto", "nopackage"+v, body)
	add("empty.proto", v, "")
	add("onlyenum.proto", v, "enum OnlyEnum { ONLY_ZERO = 0; }\n")
	add("ignored.proto", v, "message Ign { option (validate.ignored) = true; int32 x = 1 [(validate.rules).int32.gt = 1]; }\n")
	add("disabled.proto", v, "message Dis { option (validate.disabled) = true; int32 x = 1 [(validate.rules).int32.gt = 1]; }\n")
	add("service.proto", v, "message Req {} service Svc { rpc Do(Req) returns (Req); }\n")
	return out
}

// richFiles exercise everything whose order could vary.
func richFiles() []outFile {
	head := func(pkg string) string {
		return "syntax = \"proto3\";\npackage rich." + strings.ReplaceAll(pkg, "/", ".") + ";\noption go_package = \"pgvc.test/rich/" + pkg + "\";\nimport \"validate/validate.proto\";\n"
	}
	var out []outFile
	var imps, fields, reps string
	for i := 0; i < 8; i++ {
		p := fmt.Sprintf("en%d", i)
		if i >= 5 {
			p = fmt.Sprintf("x%d/same", i)
		}
		out = append(out, outFile{Path: "rich/" + p + "/e.proto", Body: head(p) + "enum En { EN_ZERO = 0; EN_ONE = 1; EN_TWO = 2; }\nmessage Held { int32 x = 1 [(validate.rules).int32.gt = 1]; enum Inner { I_ZERO = 0; I_ONE = 1; } }\n"})
		imps += "import \"rich/" + p + "/e.proto\";\n"
		q := ".rich." + strings.ReplaceAll(p, "/", ".")
		fields += fmt.Sprintf("  %s.En e%d = %d [(validate.rules).enum = {in: [1, 2, 0], defined_only: true}];\n  %s.Held h%d = %d;\n", q, i, i+1, q, i, i+100)
		reps += fmt.Sprintf("  repeated %s.En e%d = %d [(validate.rules).repeated.items.enum.defined_only = true];\n  map<int32, %s.Held.Inner> m%d = %d [(validate.rules).map.values.enum.not_in = 1];\n", q, i, i+1, q, i, i+100)
	}
	var ins []string
	for i := 0; i < 24; i++ {
		ins = append(ins, fmt.Sprint((i*7919+13)%1000))
	}
	in := strings.Join(ins, ", ")
	var strs, byts, durs []string
	for i := 0; i < 16; i++ {
		strs = append(strs, fmt.Sprintf("\"s%d\"", (i*31+5)%97))
		byts = append(byts, fmt.Sprintf("\"b%d\"", (i*31+5)%97))
		durs = append(durs, fmt.Sprintf("{seconds: %d}", (i*31+5)%97))
	}
	lists := "import \"google/protobuf/duration.proto\";\nimport \"google/protobuf/timestamp.proto\";\nimport \"google/protobuf/any.proto\";\nimport \"google/protobuf/wrappers.proto\";\nmessage L {\n"
	for i, t := range []string{"int32", "int64", "uint32", "uint64", "sint32", "sint64", "fixed32", "fixed64", "sfixed32", "sfixed64", "float", "double"} {
		lists += fmt.Sprintf("  %s n%d = %d [(validate.rules).%s = {in: [%s]}];\n  %s w%d = %d [(validate.rules).%s = {not_in: [%s]}];\n  repeated %s r%d = %d [(validate.rules).repeated.items.%s = {in: [%s]}];\n", t, i, i+1, t, in, t, i, i+100, t, in, t, i, i+200, t, in)
	}
	lists += fmt.Sprintf("  string s = 300 [(validate.rules).string = {in: [%s]}];\n  bytes b = 301 [(validate.rules).bytes = {not_in: [%s]}];\n  google.protobuf.Duration d = 302 [(validate.rules).duration = {in: [%s]}];\n  google.protobuf.Any a = 303 [(validate.rules).any = {in: [%s]}];\n  map<string, string> m = 304 [(validate.rules).map = {keys: {string: {in: [%s]}}, values: {string: {not_in: [%s]}}}];\n", strings.Join(strs, ", "), strings.Join(byts, ", "), strings.Join(durs, ", "), strings.Join(strs, ", "), strings.Join(strs, ", "), strings.Join(strs, ", "))
	lists += "  google.protobuf.Timestamp t = 305 [(validate.rules).timestamp = {gt: {seconds: 5, nanos: 7}, lt: {seconds: 1600000000}}];\n  google.protobuf.Duration e = 306 [(validate.rules).duration = {gte: {seconds: 5, nanos: 7}}];\n  string em = 307 [(validate.rules).string.email = true];\n  string uu = 308 [(validate.rules).string.uuid = true];\n  google.protobuf.StringValue sv = 309 [(validate.rules).string.hostname = true];\n  string p = 310 [(validate.rules).string.pattern = \"^a+$\"];\n  float fl = 311 [(validate.rules).float = {gt: 0.1, lt: 1e10}];\n  oneof o { option (validate.required) = true; int32 oa = 312 [(validate.rules).int32.lt = 4]; string ob = 313; }\n  map<int32, L> rec = 314 [(validate.rules).map = {min_pairs: 1, values: {message: {required: true}}}];\n}\n"
	out = append(out, outFile{Path: "rich/main.proto", Body: head("main") + imps + "message A {\n" + fields + "}\nmessage B {\n" + reps + "  message C { A a = 1; B b = 2; }\n}\n"})
	out = append(out, outFile{Path: "rich/lists.proto", Body: head("lists") + lists})
	out = append(out, outFile{Path: "rich/jm.proto", Body: head("jm") + "option java_multiple_files = true;\nmessage J1 { string s = 1 [(validate.rules).string.len = 3]; }\nmessage J2 { J1 j = 1 [(validate.rules).message.required = true]; }\n"})
	return out
}

type outRun struct {
	e   *gen.Env
	dir string
	n   int
}

func (r *outRun) write(fs []outFile) error {
	for _, f := range fs {
		p := filepath.Join(r.dir, "src", f.Path)
		os.MkdirAll(filepath.Dir(p), 0o755)
		if err := os.WriteFile(p, []byte(f.Body), 0o644); err != nil {
			return err
		}
	}
	return nil
}

// run runs protoc and gives the files written.
func (r *outRun) run(plugin, param string, env []string, paths []string) (map[string]string, string) {
	r.n++
	d := filepath.Join(r.dir, fmt.Sprintf("o%d", r.n))
	os.MkdirAll(d, 0o755)
	defer os.RemoveAll(d)
	dst := d
	if param != "" {
		dst = param + ":" + d
	}
	se, err := r.e.Protoc(d, filepath.Join(r.dir, "src"), env, append([]string{"--" + plugin + "_out=" + dst}, paths...)...)
	if err != nil {
		return nil, strings.TrimSpace(regexp.MustCompile(`(?m)^.*[Ww]arning.*\n?`).ReplaceAllString(se, "")) + " " + err.Error()
	}
	out := map[string]string{}
	filepath.Walk(d, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(d, p)
			out[rel] = string(b)
		}
		return nil
	})
	return out, ""
}

func keys[T any](m map[string]T) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// want gives the outputs that belong to those of protoc's own generators.
func wantOutputs(lang string, fs []outFile, own map[string]map[string]string) map[string]bool {
	out := map[string]bool{}
	for _, f := range fs {
		files := own[f.Path]
		switch lang {
		case "go":
			for p := range files {
				out[strings.TrimSuffix(p, ".pb.go")+".pb.validate.go"] = true
			}
		case "cc":
			out[strings.TrimSuffix(f.Path, ".proto")+".pb.validate.h"] = true
			out[strings.TrimSuffix(f.Path, ".proto")+".pb.validate.cc"] = true
		case "java":
			if !strings.Contains(f.Body, "validate/validate.proto") {
				continue
			}
			if !strings.Contains(f.Body, "java_multiple_files = true") {
				for p := range files {
					out[strings.TrimSuffix(p, ".java")+"Validator.java"] = true
				}
				continue
			}
			for _, m := range topMessages(f.Body) {
				for p := range files {
					if filepath.Base(p) == m+".java" {
						out[strings.TrimSuffix(p, ".java")+"Validator.java"] = true
					}
				}
			}
		}
	}
	return out
}

func topMessages(body string) []string {
	var out []string
	d := 0
	ws := regexp.MustCompile(`[{}]|message\s+\w+`).FindAllString(body, -1)
	for _, w := range ws {
		switch {
		case w == "{":
			d++
		case w == "}":
			d--
		case d == 0:
			out = append(out, strings.Fields(w)[1])
		}
	}
	return out
}

var javaDecl = regexp.MustCompile(`(?m)^public class (\w+)`)

// RunOutputs runs the plugin on many files and compares the outputs with
// those of protoc's generators, and with each other.
func RunOutputs(e *gen.Env, seed int64, deep bool) ([]OutMiss, int, error) {
	r := &outRun{e: e, dir: filepath.Join(e.Dir, "w-out")}
	fs := OutFiles()
	rich := richFiles()
	if err := r.write(append(append([]outFile{}, fs...), rich...)); err != nil {
		return nil, 0, err
	}
	defer os.RemoveAll(r.dir)
	var out []OutMiss
	seen := map[string]bool{}
	miss := func(key, text string, data map[string]any) {
		if !seen[key] {
			seen[key] = true
			out = append(out, OutMiss{key, text, data})
		}
	}
	pathsOf := func(fs []outFile) []string {
		var ps []string
		for _, f := range fs {
			ps = append(ps, f.Path)
		}
		return ps
	}
	type conf struct{ lang, own, param, ownParam string }
	confs := []conf{{"go", "go", "lang=go", ""}, {"go", "go", "lang=go,paths=source_relative", "paths=source_relative"}, {"go", "go", "paths=source_relative,lang=go", "paths=source_relative"}, {"go", "go", "lang=go,module=pgvc.test", "module=pgvc.test"}, {"go", "go", "lang=go,paths=import", "paths=import"},
		{"cc", "", "lang=cc", ""}, {"java", "java", "lang=java", ""}}
	all := append(append([]outFile{}, fs...), rich...)
	// what protoc's generators write for each file: found by name and content
	ownFor := func(c conf, set []outFile) (map[string]map[string]string, error) {
		res := map[string]map[string]string{}
		if c.own == "" {
			return res, nil
		}
		got, err := r.run(c.own, c.ownParam, nil, pathsOf(set))
		if err != "" {
			return nil, fmt.Errorf("%s_out: %s", c.own, err)
		}
		src := regexp.MustCompile(`(?m)^// source: (\S+)$`)
		for p, t := range got {
			if m := src.FindStringSubmatch(t); m != nil {
				if res[m[1]] == nil {
					res[m[1]] = map[string]string{}
				}
				res[m[1]][p] = ""
			}
		}
		return res, nil
	}
	for _, c := range confs {
		set := all
		own, err := ownFor(c, set)
		if err != nil {
			return nil, r.n, err
		}
		got, msg := r.run("validate", c.param, nil, pathsOf(set))
		if msg != "" {
			miss("refused/"+c.lang, "the plugin fails on valid files with "+c.param+": "+trunc(msg, 300), map[string]any{"param": c.param, "message": trunc(msg, 2000)})
			continue
		}
		want := wantOutputs(c.lang, set, own)
		for _, p := range keys(want) {
			if _, ok := got[p]; !ok {
				miss("missing/"+c.param, "with "+c.param+" the plugin does not write "+p, map[string]any{"param": c.param, "missing": p, "outputs": trunc(strings.Join(keys(got), " "), 4000)})
				break
			}
		}
		for _, p := range keys(got) {
			if !want[p] {
				miss("extra/"+c.param, "with "+c.param+" the plugin writes "+p+", which belongs to no input file", map[string]any{"param": c.param, "extra": p})
				break
			}
		}
		// the file's own text, whatever else is generated
		for p, t := range got {
			if c.lang == "java" {
				if m := javaDecl.FindStringSubmatch(t); m == nil || m[1]+".java" != filepath.Base(p) {
					miss("class", fmt.Sprintf("%s declares %v", p, m), map[string]any{"param": c.param, "file": p})
				}
			}
		}
		for _, f := range set {
			for p := range wantOutputs(c.lang, []outFile{f}, own) {
				if t, ok := got[p]; ok && !strings.Contains(t, "source: "+f.Path+"\n") {
					miss("source/"+c.param, p+" is not generated from "+f.Path, map[string]any{"param": c.param, "file": p, "proto": f.Body})
				}
			}
		}
		// again: elsewhere, at other times, in other orders
		rev := append([]outFile{}, set...)
		for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
			rev[i], rev[j] = rev[j], rev[i]
		}
		runs := []struct {
			what string
			set  []outFile
			env  []string
		}{{"again", set, nil}, {"with other environment variables", set, []string{"TZ=Asia/Tokyo", "LANG=tr_TR.UTF-8", "LC_ALL=C", "GOMAXPROCS=1", "HOME=/", "USER=nobody"}}, {"with the files in reverse order", rev, nil}, {"on a part of the files", set[len(set)/3 : 2*len(set)/3], nil}, {"on the last files", rich, []string{"GOMAXPROCS=2"}}}
		if deep || c.param == "lang="+c.lang {
			for i := 0; i < 6; i++ {
				runs = append(runs, runs[i%2])
			}
			for i, f := range rich {
				runs = append(runs, struct {
					what string
					set  []outFile
					env  []string
				}{"on " + f.Path + " alone", rich[i : i+1], nil})
			}
			for i := 0; i < len(fs); i += 9 {
				runs = append(runs, struct {
					what string
					set  []outFile
					env  []string
				}{"on " + fs[i].Path + " alone", fs[i : i+1], nil})
			}
		}
		for _, x := range runs {
			g2, msg := r.run("validate", c.param, x.env, pathsOf(x.set))
			if msg != "" {
				miss("rerun/"+c.lang, "the plugin, run "+x.what+", fails: "+trunc(msg, 300), map[string]any{"param": c.param})
				continue
			}
			for _, p := range keys(g2) {
				t, ok := got[p]
				if !ok {
					if len(x.set) == len(set) {
						miss("rerun/"+c.lang, "the plugin, run "+x.what+", also writes "+p, map[string]any{"param": c.param, "file": p})
					}
					continue
				}
				if t != g2[p] {
					miss("differ/"+c.lang, "the plugin, run "+x.what+", writes another "+p+": "+diffLine(t, g2[p]), map[string]any{"param": c.param, "file": p, "first": fmt.Sprintf("%x", sha256.Sum256([]byte(t))), "difference": diffLine(t, g2[p])})
				}
			}
			if len(x.set) == len(set) && len(g2) != len(got) {
				miss("rerun/"+c.lang, "the plugin, run "+x.what+", writes other files", map[string]any{"param": c.param, "first": len(got), "then": len(g2)})
			}
		}
	}
	return out, r.n, nil
}

func diffLine(a, b string) string {
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range x {
		if i >= len(y) || x[i] != y[i] {
			z := ""
			if i < len(y) {
				z = y[i]
			}
			return fmt.Sprintf("line %d: %q / %q", i+1, trunc(x[i], 120), trunc(z, 120))
		}
	}
	return "more lines"
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}
