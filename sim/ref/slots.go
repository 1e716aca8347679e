package ref

import (
	"fmt"
	"reflect"
)

// Slot addresses one field element of a message.
type Slot struct {
	Path  string
	Class string // the path with indices removed
	v     reflect.Value
}

// List addresses one sequence of a message.
type List struct {
	Path, Class string
	v           reflect.Value
}

var tH = reflect.TypeOf(H{})

// Walk enumerates every field element and every sequence of a message in a fixed order.
func Walk(m *Msg) (slots []Slot, lists []List) {
	var rec func(v reflect.Value, path, class string)
	rec = func(v reflect.Value, path, class string) {
		if v.Type() == tH || v.Kind() == reflect.Uint64 {
			slots = append(slots, Slot{path, class, v})
			return
		}
		switch v.Kind() {
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				n := v.Type().Field(i).Name
				rec(v.Field(i), path+"."+n, class+"."+n)
			}
		case reflect.Slice:
			lists = append(lists, List{path, class, v})
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i), fmt.Sprintf("%s[%d]", path, i), class+"[]")
			}
		case reflect.Array:
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i), fmt.Sprintf("%s[%d]", path, i), class+"[]")
			}
		}
	}
	rec(reflect.ValueOf(m).Elem(), "", "")
	return
}

func (s Slot) Get() H {
	if s.v.Type() == tH {
		return s.v.Interface().(H)
	}
	return FtoH(s.v.Uint())
}

// Set stores x; a public input keeps its low 64 bits reduced modulo the field order.
func (s Slot) Set(x H) {
	if s.v.Type() == tH {
		s.v.Set(reflect.ValueOf(x))
		return
	}
	s.v.SetUint(HtoF(x))
}

// IsField tells Goldilocks elements from hashes.
func (s Slot) IsField() bool {
	if s.v.Type() != tH {
		return true
	}
	return !isHashClass(s.Class)
}
func isHashClass(c string) bool {
	for _, h := range []string{"WiresCap", "ZsCap", "QuotCap", ".Caps", ".Sib", ".VD."} {
		if containsStr(c, h) {
			return true
		}
	}
	return false
}
func containsStr(s, t string) bool {
	for i := 0; i+len(t) <= len(s); i++ {
		if s[i:i+len(t)] == t {
			return true
		}
	}
	return false
}

func (l List) Len() int { return l.v.Len() }

// Swap, Drop, Dup and Clear alter the sequence in place.
func (l List) Swap(i, j int) {
	a, b := reflect.New(l.v.Type().Elem()).Elem(), reflect.New(l.v.Type().Elem()).Elem()
	a.Set(l.v.Index(i))
	b.Set(l.v.Index(j))
	l.v.Index(i).Set(b)
	l.v.Index(j).Set(a)
}
func (l List) Drop(i int) {
	l.v.Set(reflect.AppendSlice(l.v.Slice3(0, i, i), l.v.Slice(i+1, l.v.Len())))
}

// Dup inserts a (shallow) copy of element i at position j.
func (l List) Dup(i, j int) {
	n := reflect.MakeSlice(l.v.Type(), 0, l.v.Len()+1)
	n = reflect.AppendSlice(n, l.v.Slice(0, j))
	n = reflect.Append(n, l.v.Index(i))
	n = reflect.AppendSlice(n, l.v.Slice(j, l.v.Len()))
	l.v.Set(n)
}

// Zero appends a zero element.
func (l List) Zero() { l.v.Set(reflect.Append(l.v, reflect.Zero(l.v.Type().Elem()))) }
func (l List) Clear() {
	l.v.Set(reflect.MakeSlice(l.v.Type(), 0, 0))
}

// Copy replaces the sequence by another one of the same type.
func (l List) Copy(o List) bool {
	if l.v.Type() != o.v.Type() {
		return false
	}
	l.v.Set(o.v)
	return true
}
