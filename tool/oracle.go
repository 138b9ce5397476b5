package main

import (
	_ "embed"
	"encoding/json"
	"sort"
	"strconv"
)

//go:embed oracle/ops.json
var opsJSON []byte

type OrForm struct {
	Op   string   `json:"op"`
	Imms []string `json:"imms"`
}

type OrOp struct {
	Name     string            `json:"name"`
	Sig      int64             `json:"sig"`
	App      int64             `json:"app"`
	Forms    map[string]OrForm `json:"forms"`
	Variadic string            `json:"variadic"`
	Pops     string            `json:"pops"`
	Pushes   string            `json:"pushes"`
	Cost     any               `json:"cost"`
}

// form returns the accepted form with n argument tokens.
func (o *OrOp) form(n int) (OrForm, bool) {
	if o.Variadic != "" {
		f := OrForm{Op: o.Name}
		for i := 0; i < n; i++ {
			f.Imms = append(f.Imms, o.Variadic)
		}
		return f, true
	}
	f, ok := o.Forms[strconv.Itoa(n)]
	return f, ok
}

func (o *OrOp) arities() []int {
	if o.Variadic != "" {
		return []int{0, 1, 2, 3}
	}
	var out []int
	for k := range o.Forms {
		n, _ := strconv.Atoi(k)
		out = append(out, n)
	}
	sort.Ints(out)
	return out
}

func (o *OrOp) maxArity() int {
	a := o.arities()
	return a[len(a)-1]
}

var oracleOps = func() map[string]*OrOp {
	var l []*OrOp
	if err := json.Unmarshal(opsJSON, &l); err != nil {
		panic(err)
	}
	m := map[string]*OrOp{}
	for _, o := range l {
		m[o.Name] = o
	}
	return m
}()

func oracleNames() []string {
	var out []string
	for n := range oracleOps {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

//go:embed oracle/fields.json
var fieldsJSON []byte

// OrField is one named field of a field group.
type OrField struct {
	Name  string `json:"name"`
	Num   int64  `json:"num"`
	Type  string `json:"type"`
	Array bool   `json:"array"`
	Ver   int64  `json:"ver"`
	Itx   int64  `json:"itx"`
	Mode  int64  `json:"mode"`
}

var oracleFields = func() map[string][]OrField {
	m := map[string][]OrField{}
	if err := json.Unmarshal(fieldsJSON, &m); err != nil {
		panic(err)
	}
	return m
}()

// fieldGroup maps an immediate kind to its group, and tells which names of the
// group may be used there and from which version on (-1: never).
func fieldGroup(kind string) (group string, need func(OrField) int64) {
	ver := func(f OrField) int64 { return f.Ver }
	switch kind {
	case "txn":
		return "txn", ver
	case "txna":
		return "txn", func(f OrField) int64 {
			if !f.Array {
				return -1
			}
			return f.Ver
		}
	case "itxn":
		return "txn", func(f OrField) int64 {
			if f.Itx == 0 {
				return -1
			}
			return f.Itx
		}
	}
	if _, ok := oracleFields[kind]; ok {
		return kind, ver
	}
	return "", nil
}
