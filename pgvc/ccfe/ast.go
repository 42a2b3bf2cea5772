// Package ccfe is the C++ front end: it has clang parse the generated sources
// (and validate.h) and translates the typed syntax tree, statement by
// statement, into the verifier's language.
package ccfe

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"
)

// Ty is a type as clang prints it.
type Ty struct {
	Qual string `json:"qualType"`
	Desg string `json:"desugaredQualType"`
}

// Pos is a source position.
type Pos struct {
	Offset int  `json:"offset"`
	TokLen int  `json:"tokLen"`
	Exp    *Pos `json:"expansionLoc"`
	Spell  *Pos `json:"spellingLoc"`
}

// Node is a node of clang's syntax tree.
type Node struct {
	ID       string          `json:"id"`
	Kind     string          `json:"kind"`
	Name     string          `json:"name"`
	Opcode   string          `json:"opcode"`
	CastKind string          `json:"castKind"`
	Value    json.RawMessage `json:"value"`
	Type     Ty              `json:"type"`
	Ref      *Node           `json:"referencedDecl"`
	Found    *Node           `json:"foundReferencedDecl"`
	Inner    []*Node         `json:"inner"`
	Postfix  bool            `json:"isPostfix"`
	HasElse  bool            `json:"hasElse"`
	HasInit  bool            `json:"hasInit"`
	HasVar   bool            `json:"hasVar"`
	Implicit bool            `json:"isImplicit"`
	Member   string          `json:"referencedMemberDecl"`
	Range    struct {
		Begin Pos `json:"begin"`
		End   Pos `json:"end"`
	} `json:"range"`
	Storage string `json:"storageClass"`
	TLS     string `json:"tls"`
	Init    string `json:"init"`
	Arrow   bool   `json:"isArrow"`
	Compl   *Ty    `json:"computeLHSType"`
	TypeArg *Ty    `json:"typeArg"` // of typeid
	AnyInit *Node  `json:"anyInit"` // the member a constructor initializes
}

// Str decodes the value of a literal.
func (n *Node) Str() string {
	var s string
	if json.Unmarshal(n.Value, &s) == nil {
		return s
	}
	return string(n.Value)
}

// Flags are the compiler options of the project.
var Flags = []string{"-std=c++14", "-Wno-everything"}

// Clang runs clang++.
func Clang(dir string, args ...string) (string, string, error) {
	c := exec.Command("clang++", args...)
	c.Dir = dir
	var so, se strings.Builder
	c.Stdout, c.Stderr = &so, &se
	err := c.Run()
	return so.String(), se.String(), err
}

// Parse dumps the declarations of src (headers come from the precompiled one).
func Parse(dir, pch, src string, inc []string) (*Node, error) {
	args := append([]string{}, Flags...)
	for _, i := range inc {
		args = append(args, "-I"+i)
	}
	if pch != "" {
		args = append(args, "-include-pch", pch)
	}
	args = append(args, "-Xclang", "-ast-dump=json", "-fsyntax-only", src)
	c := exec.Command("clang++", args...)
	c.Dir = dir
	var se strings.Builder
	c.Stderr = &se
	p, err := c.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := c.Start(); err != nil {
		return nil, err
	}
	n := &Node{}
	derr := json.NewDecoder(p).Decode(n)
	for {
		var b [4096]byte
		if _, err := p.Read(b[:]); err != nil {
			break
		}
	}
	if err := c.Wait(); err != nil {
		return nil, fmt.Errorf("clang: %v: %s", err, trunc(se.String(), 1500))
	}
	return n, derr
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func readFile(p string) string { b, _ := os.ReadFile(p); return string(b) }
