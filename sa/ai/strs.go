package ai

import (
	"strings"
	"unicode"
)

// stringFn models functions of package strings (and unicode) whose arguments
// are known.
func (m *Machine) stringFn(name string, ci *CallInfo, st *State) ([]Outcome, bool) {
	one := func(t *Term) ([]Outcome, bool) { return []Outcome{{St: st, Ret: t}}, true }
	var ss []string
	for _, a := range ci.Args {
		s, ok := StrVal(a)
		if !ok {
			break
		}
		ss = append(ss, s)
	}
	if name == "strings.IndexFunc" || name == "strings.LastIndexFunc" {
		if len(ss) == 0 {
			return nil, false
		}
		return m.indexFunc(ss[0], ci.Args[1], name == "strings.LastIndexFunc", st)
	}
	n := len(ci.Args)
	if n == 1 && strings.HasPrefix(name, "unicode.Is") {
		if r, ok := IntVal(ci.Args[0]); ok {
			f := map[string]func(rune) bool{"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit}[name]
			if f != nil {
				return one(Bool(f(rune(r))))
			}
		}
		return nil, false
	}
	if n == 2 && len(ss) == 1 {
		if b, ok := IntVal(ci.Args[1]); ok {
			switch name {
			case "strings.IndexByte":
				return one(Int(int64(strings.IndexByte(ss[0], byte(b)))))
			case "strings.LastIndexByte":
				return one(Int(int64(strings.LastIndexByte(ss[0], byte(b)))))
			case "strings.IndexRune":
				return one(Int(int64(strings.IndexRune(ss[0], rune(b)))))
			}
		}
	}
	if len(ss) != n {
		return nil, false
	}
	switch name {
	case "strings.Index":
		return one(Int(int64(strings.Index(ss[0], ss[1]))))
	case "strings.LastIndex":
		return one(Int(int64(strings.LastIndex(ss[0], ss[1]))))
	case "strings.IndexAny":
		return one(Int(int64(strings.IndexAny(ss[0], ss[1]))))
	case "strings.LastIndexAny":
		return one(Int(int64(strings.LastIndexAny(ss[0], ss[1]))))
	case "strings.Contains":
		return one(Bool(strings.Contains(ss[0], ss[1])))
	case "strings.HasPrefix":
		return one(Bool(strings.HasPrefix(ss[0], ss[1])))
	case "strings.HasSuffix":
		return one(Bool(strings.HasSuffix(ss[0], ss[1])))
	case "strings.TrimPrefix":
		return one(Str(strings.TrimPrefix(ss[0], ss[1])))
	case "strings.TrimSuffix":
		return one(Str(strings.TrimSuffix(ss[0], ss[1])))
	case "strings.ToLower":
		return one(Str(strings.ToLower(ss[0])))
	case "strings.ToUpper":
		return one(Str(strings.ToUpper(ss[0])))
	}
	return nil, false
}

// indexFunc interprets the predicate for the runes of s.
func (m *Machine) indexFunc(s string, f *Term, last bool, st *State) ([]Outcome, bool) {
	type at struct {
		i int
		r rune
	}
	var rs []at
	for i, r := range s {
		rs = append(rs, at{i, r})
	}
	if last {
		for i, j := 0, len(rs)-1; i < j; i, j = i+1, j-1 {
			rs[i], rs[j] = rs[j], rs[i]
		}
	}
	for _, a := range rs {
		outs := m.CallValue(f, []*Term{Int(int64(a.r))}, st)
		if len(outs) != 1 || outs[0].Panic != nil || outs[0].Ret == nil {
			return nil, false
		}
		v, ok := BoolVal(outs[0].Ret)
		if !ok {
			return nil, false
		}
		st = outs[0].St
		if v {
			return []Outcome{{St: st, Ret: Int(int64(a.i))}}, true
		}
	}
	return []Outcome{{St: st, Ret: Int(-1)}}, true
}
