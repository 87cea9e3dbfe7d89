package main

import (
	"fmt"
	"math/big"
	"reflect"

	"vharness/eng"
)

// pad gives every slice below v spare capacity holding canaries.
func pad(v reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				pad(v.Field(i))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			pad(v.Index(i))
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			pad(v.Index(i))
		}
		if v.IsNil() {
			return
		}
		n := v.Len()
		s := reflect.MakeSlice(v.Type(), n+5, n+5)
		reflect.Copy(s, v)
		for i := n; i < n+5; i++ {
			canary(s.Index(i))
		}
		v.Set(s.Slice(0, n))
	}
}

var nCanary uint64

func canary(v reflect.Value) {
	nCanary++
	switch v.Kind() {
	case reflect.Interface:
		v.Set(reflect.ValueOf(eng.U(0xdeadbeef00000000 + nCanary)))
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				canary(v.Field(i))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			canary(v.Index(i))
		}
	case reflect.Uint64:
		v.SetUint(0xdeadbeef00000000 + nCanary)
	case reflect.String:
		v.SetString(fmt.Sprintf("canary %d", nCanary))
	}
}

// snap flattens everything below v, spare capacity included.
func snap(v reflect.Value, path string, f func(path string, x any)) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			snap(v.Field(i), path+"."+v.Type().Field(i).Name, f)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			snap(v.Index(i), fmt.Sprintf("%s[%d]", path, i), f)
		}
	case reflect.Slice:
		f(path+".len", v.Len())
		n := v.Len()
		if v.Cap() > n {
			v = v.Slice3(0, v.Cap(), v.Cap())
		}
		for i := 0; i < v.Len(); i++ {
			p := fmt.Sprintf("%s[%d]", path, i)
			if i >= n {
				p = fmt.Sprintf("%s[%d, behind the end]", path, i)
			}
			snap(v.Index(i), p, f)
		}
	case reflect.Interface, reflect.Pointer:
		if v.IsNil() {
			f(path, nil)
			return
		}
		if !v.CanInterface() {
			return
		}
		switch x := v.Interface().(type) {
		case *eng.Val:
			f(path, fmt.Sprintf("%p %s %v", x, x.E.String(), x.C))
		case *big.Int:
			f(path, x.String())
		default:
			if v.Kind() == reflect.Interface {
				f(path, fmt.Sprint(x))
			} else {
				snap(v.Elem(), path, f)
			}
		}
	case reflect.Uint64, reflect.Uint, reflect.Uint32, reflect.Uint8:
		f(path, v.Uint())
	case reflect.Int, reflect.Int64:
		f(path, v.Int())
	case reflect.String:
		f(path, v.String())
	case reflect.Bool:
		f(path, v.Bool())
	}
}

type image struct {
	paths []string
	vals  []any
}

func take(name string, ptr any) (im image) {
	snap(reflect.ValueOf(ptr).Elem(), name, func(p string, x any) {
		im.paths = append(im.paths, p)
		im.vals = append(im.vals, x)
	})
	return
}

func (a image) diff(b image) string {
	if len(a.vals) != len(b.vals) {
		return fmt.Sprintf("%d places became %d", len(a.vals), len(b.vals))
	}
	for i := range a.vals {
		if a.vals[i] != b.vals[i] || a.paths[i] != b.paths[i] {
			return fmt.Sprintf("%s was %v, now %v", a.paths[i], a.vals[i], b.vals[i])
		}
	}
	return ""
}
