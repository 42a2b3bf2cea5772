package main

import (
	"fmt"
	"math/big"
	"os"
	"reflect"
	"strings"

	"pgvc/ccvc"

	"pgvc/gen"
	"pgvc/ir"
)

// ccheader lowers validate.h.
func ccheader() {
	e, err := gen.New()
	die(err)
	defer e.Close()
	u, err := ccvc.HeaderUnit(e)
	die(err)
	for k, f := range u.Funcs {
		fmt.Println(k, len(f.Body.L))
		if strings.HasPrefix(k, os.Args[2]) {
			dump("", reflect.ValueOf(f.Body))
		}
		if bad, ok := f.Body.L[0].(*ir.Bad); ok {
			fmt.Println("  BAD", bad.At, bad.Why)
		}
	}
}

func dump(ind string, v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface, reflect.Ptr:
		if v.IsNil() {
			return
		}
		if t, ok := v.Interface().(*ir.T); ok {
			fmt.Println(ind, "T", t.K, t.Name, t.Bits)
			return
		}
		dump(ind, v.Elem())
	case reflect.Struct:
		fmt.Println(ind, v.Type().Name())
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if v.Type().Field(i).Name == "P" || f.IsZero() {
				continue
			}
			if b, ok := f.Interface().(*big.Int); ok {
				fmt.Println(ind, " ", b)
				continue
			}
			switch f.Kind() {
			case reflect.String, reflect.Bool, reflect.Int:
				fmt.Println(ind, " ", v.Type().Field(i).Name, f)
			default:
				fmt.Println(ind, " ", v.Type().Field(i).Name+":")
				dump(ind+"    ", f)
			}
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			dump(ind+"  -", v.Index(i))
		}
	default:
		fmt.Println(ind, v)
	}
}
