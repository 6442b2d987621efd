//gosx:pkg runtime core
package core

// c22Escape is how the compiler writes an import path into symbol names.
func c22Escape(s string) string {
	slash := -1
	for i := 0; i < len(s); i++ {
		if s[i] == '/' {
			slash = i
		}
	}
	var b []byte
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c <= ' ' || (c == '.' && i > slash) || c == '%' || c == '"' || c >= 0x7f {
			b = append(b, '%', "0123456789abcdef"[c>>4], "0123456789abcdef"[c&15])
		} else {
			b = append(b, c)
		}
	}
	return string(b)
}

// c22TypeArgs are type arguments the way the linker writes them; x is part of
// the names or the struct tag in them.
func c22TypeArgs(name string, x string) string {
	switch svChoose(name, 12) {
	case 0:
		return "int"
	case 1:
		return "[]int"
	case 2:
		return "map[string]p.K" + x
	case 3:
		return "func(int) (string, error)"
	case 4:
		return "ex.com/p/q%2ev2.K" + x
	case 5:
		return "struct { X int \"a" + x + "]b\\\"[(\" }"
	case 6:
		return "p.Two[int,ex.com/q.K" + x + "]"
	case 7:
		return "int,[3]p.Two[p.One[[]int],string]"
	case 8:
		return "interface { M" + x + "([]int) error }"
	case 9:
		return "map[p.One[int]]func(p.One[int]),*a.b/c.D"
	case 10:
		return "go.shape.struct { X []int },chan<- []int"
	}
	return "..."
}

// SV_parse: the parts of a full name are found in it.
//
//gosx:bounds paths of 1-3 elements with 2 arbitrary bytes of 6; functions, methods of values and of pointers, each plain or with 1 of 12 lists of type arguments, nested ones and struct tags included; 1-2 arbitrary letters in the names, 1 in the type arguments
//gosx:budget quick=30s thorough=60s
func SV_parse() {
	el := svStrIn("el", 2, "a._%v-")
	pkg := []string{"p" + el + "k", "ex.com/p" + el + "k", "ex.com/a.b/p" + el}[svChoose("path", 3)]
	x := svStrIn("x", 1, "A1_")
	recvName, recvPtr, typeArgs, funcArgs := "", false, "", ""
	name := svStrIn("name", 1, "abcXYZ_") + "m1"
	full := c22Escape(pkg) + "."
	kind := svChoose("kind", 6)
	switch kind {
	case 1:
		recvName = "T" + x
		full += recvName + "."
	case 2:
		recvName, recvPtr = "T"+x, true
		full += "(*" + recvName + ")."
	case 3:
		recvName, typeArgs = "T"+x, c22TypeArgs("targs", x)
		full += recvName + "[" + typeArgs + "]."
	case 4:
		recvName, recvPtr, typeArgs = "T"+x, true, c22TypeArgs("targs", x)
		full += "(*" + recvName + "[" + typeArgs + "])."
	}
	full += name
	if kind == 5 {
		funcArgs = c22TypeArgs("fargs", x)
		full += "[" + funcArgs + "]"
	}
	gotPkg, gotRecv, gotPtr, gotTypeArgs, gotFuncArgs, gotName := ParseFuncName(full)
	svReach("parsed")
	svAssert(gotPkg == c22Escape(pkg), "package")
	svAssert(gotRecv == recvName && gotPtr == recvPtr, "receiver")
	svAssert(gotTypeArgs == typeArgs, "type arguments")
	svAssert(gotFuncArgs == funcArgs, "function arguments")
	svAssert(gotName == name, "name")
}

// SV_parse_any: parsing ends without a panic, whatever the name is, and finds
// nothing that is not in it.
//
//gosx:bounds any name of 1-4 (thorough 6) bytes of "a.[]()*/" and any of 256 bytes at the end
//gosx:budget quick=30s thorough=90s
func SV_parse_any() {
	n := 4
	if svTier() > 0 {
		n = 6
	}
	s := svStrIn("s", 1+svChoose("len", n), "a.[]()*/") + svStr("end", svChoose("rest", 2))
	pkg, recv, _, targs, fargs, name := ParseFuncName(s)
	svReach("returned")
	for _, part := range []string{pkg, recv, targs, fargs, name} {
		svAssert(len(part) <= len(s), "no longer than the name")
	}
	svAssert(len(pkg)+len(recv)+len(targs)+len(fargs)+len(name) <= len(s), "parts do not overlap")
}
