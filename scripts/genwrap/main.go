// genwrap PKG SKIP,SKIP... : prints declarations that re-export a std package.
package main

import (
	"fmt"
	"go/importer"
	"go/token"
	"go/types"
	"os"
	"path"
	"strings"
)

func main() {
	p, err := importer.ForCompiler(token.NewFileSet(), "source", nil).Import(os.Args[1])
	if err != nil {
		panic(err)
	}
	skip := map[string]bool{}
	for _, s := range strings.Split(os.Args[2], ",") {
		skip[s] = true
	}
	b := path.Base(os.Args[1])
	for _, n := range p.Scope().Names() {
		o := p.Scope().Lookup(n)
		if !o.Exported() || skip[n] {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			fmt.Printf("const %s = %s.%s\n", n, b, n)
		case *types.Var:
			fmt.Printf("var %s = %s.%s\n", n, b, n)
		case *types.TypeName:
			if t, ok := o.Type().(*types.Named); ok && t.TypeParams().Len() > 0 {
				continue
			}
			fmt.Printf("type %s = %s.%s\n", n, b, n)
		case *types.Func:
			sig := o.Type().(*types.Signature)
			if sig.TypeParams().Len() > 0 {
				continue
			}
			var ps, as []string
			ok := true
			q := func(x *types.Package) string {
				if x == p {
					return b
				}
				ok = false
				return x.Name()
			}
			for i := 0; i < sig.Params().Len(); i++ {
				t := types.TypeString(sig.Params().At(i).Type(), q)
				a := fmt.Sprintf("a%d", i)
				if sig.Variadic() && i == sig.Params().Len()-1 {
					t = "..." + strings.TrimPrefix(t, "[]")
					ps = append(ps, a+" "+t)
					a += "..."
				} else {
					ps = append(ps, a+" "+t)
				}
				as = append(as, a)
			}
			var rs []string
			for i := 0; i < sig.Results().Len(); i++ {
				rs = append(rs, types.TypeString(sig.Results().At(i).Type(), q))
			}
			if !ok {
				fmt.Printf("var %s = %s.%s\n", n, b, n)
				continue
			}
			ret := ""
			if len(rs) > 0 {
				ret = "return "
			}
			fmt.Printf("func %s(%s) (%s) { %s%s.%s(%s) }\n", n, strings.Join(ps, ", "), strings.Join(rs, ", "), ret, b, n, strings.Join(as, ", "))
		}
	}
}
