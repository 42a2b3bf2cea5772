package smt

import (
	"fmt"
	"math/big"
)

// Interp supplies the concrete meaning of application terms that are not
// library functions (message fields and the like).
type Interp func(name string, args []any) (any, bool)

// RefVal is a concrete message reference (nil pointer: Ptr==nil).
type RefVal struct{ Ptr any }

// Eval evaluates t concretely. Vars must be bound in env.
func Eval(t *Term, env map[*Term]any, in Interp) (any, error) {
	switch t.Op {
	case "true", "false", "int", "str", "fp":
		return t.constVal(), nil
	case "var":
		if v, ok := env[t]; ok {
			return v, nil
		}
		return nil, fmt.Errorf("unbound %s", t.Name)
	case "and", "or":
		for _, a := range t.Args {
			v, err := Eval(a, env, in)
			if err != nil {
				return nil, err
			}
			if v.(bool) != (t.Op == "and") {
				return t.Op == "or", nil
			}
		}
		return t.Op == "and", nil
	case "ite":
		c, err := Eval(t.Args[0], env, in)
		if err != nil {
			return nil, err
		}
		if c.(bool) {
			return Eval(t.Args[1], env, in)
		}
		return Eval(t.Args[2], env, in)
	case "forall", "exists":
		lo, err := Eval(t.Args[1], env, in)
		if err != nil {
			return nil, err
		}
		hi, err := Eval(t.Args[2], env, in)
		if err != nil {
			return nil, err
		}
		l, h := lo.(*big.Int).Int64(), hi.(*big.Int).Int64()
		old, had := env[t.Args[0]]
		defer func() {
			if had {
				env[t.Args[0]] = old
			} else {
				delete(env, t.Args[0])
			}
		}()
		for i := l; i < h; i++ {
			env[t.Args[0]] = big.NewInt(i)
			v, err := Eval(t.Args[3], env, in)
			if err != nil {
				return nil, err
			}
			if v.(bool) != (t.Op == "forall") {
				return t.Op == "exists", nil
			}
		}
		return t.Op == "forall", nil
	}
	vs := make([]any, len(t.Args))
	for i, a := range t.Args {
		v, err := Eval(a, env, in)
		if err != nil {
			return nil, err
		}
		vs[i] = v
	}
	bi := func(i int) *big.Int { return vs[i].(*big.Int) }
	switch t.Op {
	case "not":
		return !vs[0].(bool), nil
	case "=":
		switch a := vs[0].(type) {
		case *big.Int:
			return a.Cmp(bi(1)) == 0, nil
		default:
			return vs[0] == vs[1], nil
		}
	case "fp.eq":
		return fv(vs[0]) == fv(vs[1]), nil
	case "fp.lt":
		return fv(vs[0]) < fv(vs[1]), nil
	case "fp.leq":
		return fv(vs[0]) <= fv(vs[1]), nil
	case "fp.isNaN":
		f := fv(vs[0])
		return f != f, nil
	case "fp.neg":
		switch x := vs[0].(type) {
		case float32:
			return -x, nil
		case float64:
			return -x, nil
		}
	case "<":
		return bi(0).Cmp(bi(1)) < 0, nil
	case "+":
		return new(big.Int).Add(bi(0), bi(1)), nil
	case "-":
		return new(big.Int).Sub(bi(0), bi(1)), nil
	case "*":
		return new(big.Int).Mul(bi(0), bi(1)), nil
	case "div":
		return new(big.Int).Div(bi(0), bi(1)), nil
	case "mod":
		return new(big.Int).Mod(bi(0), bi(1)), nil
	case "app":
		if f, ok := Funcs[BaseName(t.Name)]; ok && f.Eval != nil {
			if r := f.Eval(t.Name, vs); r != nil {
				switch x := r.(type) {
				case int:
					return big.NewInt(int64(x)), nil
				case int64:
					return big.NewInt(x), nil
				}
				return r, nil
			}
		}
		if in != nil {
			if r, ok := in(t.Name, vs); ok {
				return r, nil
			}
		}
		return nil, fmt.Errorf("no interpretation for %s", t.Name)
	}
	return nil, fmt.Errorf("eval: op %s", t.Op)
}

func fv(v any) float64 {
	switch x := v.(type) {
	case float32:
		return float64(x)
	case float64:
		return x
	}
	panic(fmt.Sprintf("fv %T", v))
}
