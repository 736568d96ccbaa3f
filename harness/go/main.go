// Executes the histories recorded from the C API through the Go binding and prints what it answers.
package main

import (
	"bufio"
	"encoding/hex"
	"fmt"
	"os"
	"strconv"
	"strings"

	z "zzzjson"
)

func h(p *string) string {
	if p == nil {
		return "-"
	}
	if *p == "" {
		return "e"
	}
	return hex.EncodeToString([]byte(*p))
}

func str(v *z.Value) string {
	if v == nil {
		return "-"
	}
	return h(v.Stringify())
}

func tern(b bool) string {
	if b {
		return "1"
	}
	return "0"
}

func dump(v *z.Value, o *strings.Builder, budget *int, depth int) {
	*budget--
	if *budget < 0 || depth > 8 {
		o.WriteString("...")
		return
	}
	t := 0
	if p := v.Type(); p != nil {
		t = int(*p)
	}
	b := -1
	if p := v.GetBool(); p != nil {
		b = 0
		if *p {
			b = 1
		}
	}
	fmt.Fprintf(o, "t%d;n%d;k%s;u%s;S%s;U%s;N%s;b%d;z%s;w%s(", t, uint64(v.Size()), h(v.GetKey()), h(v.GetUnEscapeKey()), h(v.GetStr()),
		h(v.GetUnEscapeStr()), h(v.GetNum()), b, tern(v.IsNull()), h(v.Stringify()))
	i := 0
	for it := v.Begin(); it != nil && i < 20; it = it.Next() {
		dump(it, o, budget, depth+1)
		i++
	}
	o.WriteString(")[")
	for j := 0; j <= i && j < 4; j++ {
		o.WriteString(str(v.ArrayGet(z.JSONSize(j))) + ",")
	}
	o.WriteString("]{")
	i = 0
	for it := v.Begin(); it != nil && i < 4; it = it.Next() {
		if k := it.GetKey(); k != nil {
			o.WriteString(str(v.ObjGet(*k)) + ",")
		}
		i++
	}
	o.WriteString(str(v.ObjGet("zz")) + "}")
}

func main() {
	f, err := os.Open(os.Args[1])
	if err != nil {
		panic(err)
	}
	out := bufio.NewWriterSize(os.Stdout, 1<<20)
	in := bufio.NewReaderSize(f, 1<<20)
	var al [16]*z.Allocator
	var sl [16]*z.Value
	types := []z.JSONType{z.JSONTypeBool, z.JSONTypeArray, z.JSONTypeObject, z.JSONTypeString, z.JSONTypeNull, z.JSONTypeNumber}
	fmt.Fprintln(out, types)
	for {
		line, err := in.ReadString('\n')
		if err != nil {
			break
		}
		w := strings.Fields(line)
		if w[0] == "P" {
			for i := range al {
				if al[i] != nil {
					al[i].ReleaseAllocator()
				}
				al[i] = nil
			}
			for i := range sl {
				sl[i] = nil
			}
			fmt.Fprintln(out, "P")
			out.Flush()
			continue
		}
		a, _ := strconv.Atoi(w[1])
		if w[0] == "L" {
			fmt.Fprintln(out, str(sl[a]))
			continue
		}
		if w[0] == "F" {
			var o strings.Builder
			budget := 30
			dump(sl[a], &o, &budget, 0)
			fmt.Fprintln(out, o.String())
			continue
		}
		b, _ := strconv.Atoi(w[2])
		n, _ := strconv.ParseUint(w[3], 10, 64)
		s := ""
		if w[4] != "-" {
			x, _ := hex.DecodeString(w[4])
			s = string(x)
		}
		r := true
		get := func(v *z.Value) {
			r = v != nil
			sl[a] = v
		}
		switch w[0] {
		case "NewAllocator":
			al[a] = z.NewAllocator()
		case "ReleaseAllocator":
			al[a].ReleaseAllocator()
			al[a] = nil
		case "NewValue":
			sl[a] = z.NewValue(al[b])
		case "Parse":
			r = sl[a].Parse(s)
		case "SetNull":
			sl[a].SetNull()
		case "SetBool":
			sl[a].SetBool(n != 0)
		case "SetNumText":
			r = sl[a].SetNumStr(s)
		case "SetStr":
			r = sl[a].SetStr(s)
		case "SetStrEscape":
			r = sl[a].SetStrEscape(s)
		case "SetKey":
			r = sl[a].SetKey(s)
		case "SetKeyEscape":
			r = sl[a].SetKeyEscape(s)
		case "SetArray":
			sl[a].SetArray()
		case "SetObj":
			sl[a].SetObj()
		case "Copy":
			get(sl[b].Copy())
		case "Move":
			r = sl[a].Move()
		case "Set":
			r = sl[a].Set(sl[b])
		case "SetFast":
			r = sl[a].SetFast(sl[b])
		case "ArrayAdd":
			r = sl[a].ArrayAdd(sl[b])
		case "ArrayAddFast":
			r = sl[a].ArrayAddFast(sl[b])
		case "ObjAdd":
			r = sl[a].ObjAdd(sl[b])
		case "ObjAddFast":
			r = sl[a].ObjAddFast(sl[b])
		case "ArrayDel":
			r = sl[a].ArrayDel(z.JSONSize(n))
		case "ObjDel":
			r = sl[a].ObjDel(s)
		case "ArrayGet":
			get(sl[b].ArrayGet(z.JSONSize(n)))
		case "ObjGet":
			get(sl[b].ObjGet(s))
		case "Begin":
			get(sl[b].Begin())
		case "Next":
			get(sl[b].Next())
		default:
			fmt.Fprintln(os.Stderr, "unknown command "+w[0])
			os.Exit(97)
		}
		fmt.Fprintln(out, tern(r))
	}
	out.Flush()
}
