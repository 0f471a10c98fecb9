// Command hovercheck decides semantic properties of the hangover repository
// from its current source, without running it.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Check is the decision procedure for one property.
type Check struct {
	Prop    string
	Explain string
	Assume  []string
	Floors  map[string]int
	Run     func(c *Ctx)
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.Prop] = c }

// load reads the repository; whatever goes wrong is an error
func load(repo string) (w *World, err error) {
	defer func() {
		if r := recover(); r != nil {
			w, err = nil, fmt.Errorf("the repository cannot be analysed: %v", r)
		}
	}()
	return LoadWorld(repo)
}

func main() {
	repo := flag.String("repo", "/repo", "repository to analyse")
	verif := flag.String("verif", "/verif", "where evidence and known findings live")
	prop := flag.String("prop", "", "property to decide (comma separated, or all)")
	list := flag.Bool("list", false, "list functions")
	describe := flag.Bool("describe", false, "describe all checks")
	flag.Parse()
	if *describe {
		out := map[string]any{}
		for p, c := range checks {
			out[p] = map[string]any{"explain": c.Explain, "assume": c.Assume, "floors": c.Floors}
		}
		json.NewEncoder(os.Stdout).Encode(out)
		return
	}

	start := time.Now()
	w, err := load(*repo)
	theWorld = w
	if *list && err == nil {
		for _, f := range w.Fns {
			fmt.Println(fname(f), w.pos(f.Pos()))
		}
		return
	}
	props := strings.Split(*prop, ",")
	if *prop == "all" {
		props = sortedKeys(checks)
	}
	sort.Strings(props)
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))

	code := 0
	for _, p := range props {
		ch := checks[p]
		if ch == nil {
			fmt.Println("no such check:", p)
			os.Exit(2)
		}
		t := start
		if len(props) > 1 {
			t = time.Now()
		}
		if err != nil {
			// a tree that cannot be analysed is not known to hold
			c := NewCtx(&World{Repo: *repo}, p, tier)
			c.BadAt("load", "repository", "-", "", "%v", err)
			code |= c.Finish(*verif, &Check{Prop: p, Explain: ch.Explain}, t, seed)
			continue
		}
		c := NewCtx(w, p, tier)
		func() {
			defer func() {
				if r := recover(); r != nil {
					c.BadAt("internal", "panic", "-", "", "%v\n%s", r, debug.Stack())
				}
			}()
			ch.Run(c)
		}()
		code |= c.Finish(*verif, ch, t, seed)
	}
	os.Exit(code)
}
