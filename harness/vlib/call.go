package vlib

import (
	"fmt"
	"os"
	"reflect"
)

// Call calls a function of the decoder with the arguments its parameters ask
// for by their types, in the order given: a parameter may have moved, gone, or
// become a pointer, or a value, without a difference to what is observed. When
// no argument fits, the process ends with the status for a harness that does
// not fit the tree.
func Call(fn interface{}, args ...interface{}) []reflect.Value {
	f := reflect.ValueOf(fn)
	t := f.Type()
	used := make([]bool, len(args))
	in := make([]reflect.Value, t.NumIn())
	for i := range in {
		in[i] = pick(t.In(i), args, used)
		if !in[i].IsValid() {
			Unfit(fmt.Sprintf("parameter %d of %v", i, t))
		}
	}
	return f.Call(in)
}

// Unfit ends the process because the harness does not fit the tree.
func Unfit(what string) {
	fmt.Println("the harness does not fit this tree:", what)
	os.Exit(5)
}

func pick(t reflect.Type, args []interface{}, used []bool) reflect.Value {
	for k, a := range args {
		if !used[k] && reflect.TypeOf(a) == t {
			used[k] = true
			return reflect.ValueOf(a)
		}
	}
	for k, a := range args {
		switch at := reflect.TypeOf(a); {
		case used[k]:
		case at.Kind() == reflect.Ptr && at.Elem() == t:
			used[k] = true
			return reflect.ValueOf(a).Elem()
		case t.Kind() == reflect.Ptr && t.Elem() == at:
			used[k] = true
			p := reflect.New(at)
			p.Elem().Set(reflect.ValueOf(a))
			return p
		}
	}
	return reflect.Value{}
}
