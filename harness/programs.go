package main

import (
	"fmt"
	"math/rand"

	"github.com/viant/velty"
)

func init() {
	suites["PROG"] = Suite{"random programs", func(c *Ctx) { programs(c, "prog", c.N(3000, 60000)) }}
}

// programs runs random programs over the whole language
func programs(c *Ctx, name string, n int) {
	c.Rand(name, n, func(r *rand.Rand) (string, func() string) {
		g := newGen(r)
		var ns []node
		for k := 2 + r.Intn(6); k > 0; k-- {
			ns = append(ns, g.stmt(3))
		}
		esc := r.Intn(2) == 0
		size := []int{0, 1, 16, 1024}[r.Intn(4)]
		seeds := []int64{r.Int63(), r.Int63(), r.Int63()}
		return fmt.Sprint(src(ns), esc, size, seeds), func() string {
			return runProgram(ns, g, seeds, velty.EscapeHTML(esc), velty.BufferSize(size))
		}
	})
}
