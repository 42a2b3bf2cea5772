// Package ir is the small imperative language into which the front ends
// (Go, C++, Java) translate the real code, statement by statement.
package ir

import "math/big"

type Kind int

const (
	KOther Kind = iota
	KBool
	KInt
	KFloat
	KStr // strings and byte slices
	KNil
	KPtr
	KStruct
	KSlice
	KMap
	KIface
	KFunc
	KTuple
	KVoid
)

// T is a language-neutral type; Name is the qualified source name.
type T struct {
	K      Kind
	Bits   int
	Signed bool
	Name   string
	Elem   *T
	Key    *T
	Bytes  bool // KStr: byte slice rather than string
	Fields []Field
	// Methods of an interface type (for dynamic type tests).
	Methods []string
}

type Field struct {
	Name string
	T    *T
}

func (t *T) String() string {
	if t == nil {
		return "<nil>"
	}
	return t.Name
}

type Expr interface{ Pos() string }
type Stmt interface{ Pos() string }

type P struct{ At string }

func (p P) Pos() string { return p.At }

type (
	Lit struct {
		P
		T *T
		B bool
		I *big.Int
		F float64
		S string
	}
	Nil struct {
		P
		T *T
	}
	Var struct {
		P
		ID   string // unique per declaration
		Name string
		T    *T
	}
	Global struct {
		P
		Name string
		T    *T
	}
	Sel struct {
		P
		X    Expr
		Name string
		T    *T
	}
	Call struct {
		P
		Name string // qualified callee; "" for a call of a function value
		Fn   Expr   // function value when Name==""
		Recv Expr
		Args []Expr
		T    *T
		// Ellipsis: last argument is spread
		Spread bool
		TArg   *T // type argument (make, new, conversions)
	}
	Un struct {
		P
		Op string // "!", "-", "+", "^", "&", "*"
		X  Expr
		T  *T
	}
	Bin struct {
		P
		Op   string
		X, Y Expr
		T    *T
	}
	Index struct {
		P
		X, I Expr
		T    *T
	}
	Slice struct {
		P
		X, Lo, Hi Expr
		T         *T
	}
	Comp struct {
		P
		T    *T
		Keys []Expr // for maps / indexed; nil otherwise
		Flds []string
		Vals []Expr
		Addr bool
	}
	Conv struct {
		P
		T *T
		X Expr
	}
	Assert struct {
		P
		X  Expr
		T  *T
		OK bool // two-result form
	}
	FuncLit struct {
		P
		F *Func
	}
	Cond struct {
		P
		C, A, B Expr
		T       *T
	}
	// CommaOK is the two-value form of a map index.
	CommaOK struct {
		P
		X Expr
		T *T
	}
	// Unsupported marks a construct outside the subset.
	Unsupported struct {
		P
		Why string
	}
)

type (
	Block struct {
		P
		L []Stmt
	}
	Assign struct {
		P
		Lhs    []Expr // Var, Index, Sel, Un("*") or nil (blank)
		Rhs    []Expr
		Define bool
		Op     string // "" or "+" etc. for op-assign
	}
	ExprStmt struct {
		P
		X Expr
	}
	If struct {
		P
		Init Stmt
		C    Expr
		Then Stmt
		Else Stmt
	}
	For struct {
		P
		Init Stmt
		C    Expr
		Post Stmt
		Body Stmt
	}
	Range struct {
		P
		K, V   *Var // nil when absent
		X      Expr
		Body   Stmt
		Define bool
	}
	Switch struct {
		P
		Init  Stmt
		Tag   Expr // nil: switch true
		Cases []Case
	}
	TypeSwitch struct {
		P
		Init  Stmt
		X     Expr
		Cases []TCase
	}
	Return struct {
		P
		X []Expr
	}
	Break    struct{ P }
	Continue struct{ P }
	// Throw models a thrown exception (C++/Java).
	Throw struct {
		P
		X Expr
	}
	Bad struct {
		P
		Why string
	}
	Empty struct{ P }
	// DeferCall is run at function exit (only effect-free calls are accepted).
	Defer struct {
		P
		X Expr
	}
)

type Case struct {
	Vals    []Expr // nil: default
	Default bool
	Body    []Stmt
	Fall    bool
}

type TCase struct {
	Types   []*T // nil element: case nil
	Default bool
	Bind    *Var
	Body    []Stmt
}

type Param struct {
	V *Var
}

type Func struct {
	Name     string
	Recv     *Var
	Params   []*Var
	Results  []*Var // may be unnamed (Name "")
	Body     *Block
	At       string
	Variadic bool
}

// Unit is one translated compilation unit.
type Unit struct {
	Funcs   map[string]*Func // qualified name -> function
	Globals map[string]*Glob
	// Types declared in the unit, by qualified name.
	Types map[string]*T
	// Methods[type][method] for interface satisfaction tests.
	Methods map[string]map[string]bool
}

type Glob struct {
	Name string
	T    *T
	Init Expr
}
