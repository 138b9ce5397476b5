package main

import (
	"bytes"
	"go/constant"
	"go/types"
	"math/bits"
	"path"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"
)

// foldTable holds pure library functions that are folded when all of their
// arguments are constants.
var foldTable = map[string]any{
	"strings.Cut":                         strings.Cut,
	"strings.CutPrefix":                   strings.CutPrefix,
	"strings.CutSuffix":                   strings.CutSuffix,
	"strings.Fields":                      strings.Fields,
	"strings.EqualFold":                   strings.EqualFold,
	"strings.Compare":                     strings.Compare,
	"strings.SplitN":                      strings.SplitN,
	"strings.SplitAfter":                  strings.SplitAfter,
	"strings.ContainsAny":                 strings.ContainsAny,
	"strings.ContainsRune":                strings.ContainsRune,
	"strings.IndexAny":                    strings.IndexAny,
	"strings.LastIndexByte":               strings.LastIndexByte,
	"strings.LastIndexAny":                strings.LastIndexAny,
	"strings.Replace":                     strings.Replace,
	"strings.Title":                       strings.Title,
	"strings.Clone":                       strings.Clone,
	"strconv.ParseBool":                   strconv.ParseBool,
	"strconv.FormatBool":                  strconv.FormatBool,
	"strconv.FormatInt":                   strconv.FormatInt,
	"strconv.FormatUint":                  strconv.FormatUint,
	"strconv.Unquote":                     strconv.Unquote,
	"unicode/utf8.RuneLen":                utf8.RuneLen,
	"unicode/utf8.RuneCountInString":      utf8.RuneCountInString,
	"unicode/utf8.DecodeRuneInString":     utf8.DecodeRuneInString,
	"unicode/utf8.DecodeLastRuneInString": utf8.DecodeLastRuneInString,
	"unicode/utf8.ValidString":            utf8.ValidString,
	"unicode/utf8.ValidRune":              utf8.ValidRune,
	"math/bits.Len":                       bits.Len,
	"math/bits.Len64":                     bits.Len64,
	"math/bits.OnesCount":                 bits.OnesCount,
	"path/filepath.Base":                  filepath.Base,
	"path/filepath.Ext":                   filepath.Ext,
	"path/filepath.Clean":                 filepath.Clean,
	"path.Base":                           path.Base,
	"bytes.TrimSpace":                     bytes.TrimSpace,
	"bytes.HasPrefix":                     bytes.HasPrefix,
	"bytes.Equal":                         bytes.Equal,
}

// fold evaluates a table entry on constants.
func (in *Interp) fold(ctx *CallCtx, name string, args []Val) ([]Outcome, bool) {
	f, ok := foldTable[name]
	if !ok {
		return nil, false
	}
	st := ctx.St
	fv := reflect.ValueOf(f)
	ft := fv.Type()
	if ft.NumIn() != len(args) {
		return nil, false
	}
	var ins []reflect.Value
	for i, a := range args {
		v, ok := in.goConst(st, a, ft.In(i))
		if !ok {
			return nil, false
		}
		ins = append(ins, v)
	}
	var vs []Val
	for i, o := range fv.Call(ins) {
		v, ok := in.fromGo(st, o, ctx.Res.At(i).Type())
		if !ok {
			return nil, false
		}
		vs = append(vs, v)
	}
	return ret(st, vs...), true
}

func (in *Interp) goConst(st *State, a Val, t reflect.Type) (reflect.Value, bool) {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.String:
		s, ok := constStr(a)
		v.SetString(s)
		return v, ok
	case reflect.Bool:
		b, ok := constBool(a)
		v.SetBool(b)
		return v, ok
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		n, ok := constInt(a)
		if !ok || v.OverflowInt(n) {
			return v, false
		}
		v.SetInt(n)
		return v, true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		c, ok := a.(*Const)
		if !ok || c.V == nil {
			return v, false
		}
		n, exact := constant.Uint64Val(constant.ToInt(c.V))
		if !exact || v.OverflowUint(n) {
			return v, false
		}
		v.SetUint(n)
		return v, true
	case reflect.Slice:
		q, ok := in.seqOf(st, a)
		if !ok {
			return v, false
		}
		for _, g := range q.Segs {
			if g.Kind != SegElem {
				return v, false
			}
			e, ok := in.goConst(st, g.V, t.Elem())
			if !ok {
				return v, false
			}
			v = reflect.Append(v, e)
		}
		return v, true
	}
	return v, false
}

func (in *Interp) fromGo(st *State, o reflect.Value, t types.Type) (Val, bool) {
	switch o.Kind() {
	case reflect.String:
		return mkStr(o.String()), true
	case reflect.Bool:
		return mkBool(o.Bool()), true
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return mkInt(o.Int(), t), true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return &Const{V: constant.MakeUint64(o.Uint()), T: t}, true
	case reflect.Slice:
		st2, ok := t.Underlying().(*types.Slice)
		if !ok {
			return nil, false
		}
		if o.IsNil() {
			return &Const{T: t}, true
		}
		q := &Seq{T: st2.Elem()}
		for i := 0; i < o.Len(); i++ {
			e, ok := in.fromGo(st, o.Index(i), st2.Elem())
			if !ok {
				return nil, false
			}
			q.Segs = append(q.Segs, Seg{Kind: SegElem, V: e})
		}
		return in.newSlice(st, q, t), true
	case reflect.Interface:
		if o.IsNil() {
			return &Const{T: t}, true
		}
		if e, ok := o.Interface().(error); ok {
			return &Term{Op: "mkerr", Args: []Val{mkStr(e.Error())}, T: t}, true
		}
	}
	return nil, false
}
