// Command verifmon runs the monitors of one property against the library.
package main

import (
	"flag"
	"fmt"
	"os"
	"sort"

	"verifmon/ref"
)

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// realStdout stays reachable: the finalizer of the file would close descriptor 1.
var realStdout = os.Stdout

var known []string

// knownFindings returns the known findings that were observed again.
func knownFindings() []string { return known }

func main() {
	id := flag.String("prop", "", "property")
	seed := flag.String("seed", "1", "seed")
	thorough := flag.Bool("thorough", false, "thorough tier")
	out := flag.String("out", "", "report file")
	fam := flag.String("fam", "", "only this family")
	idx := flag.Int("idx", -1, "only this index")
	list := flag.Bool("list", false, "list properties")
	quiet := flag.Bool("quiet", true, "discard what the library prints")
	help := flag.String("helper", "", "internal: what a helper process prints")
	flag.Parse()
	if *help != "" {
		runHelper(*help, os.Stdout)
		return
	}
	if *list {
		var ids []string
		for k := range props {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println(ids)
		return
	}
	p := props[*id]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *id)
		os.Exit(3)
	}
	if err := ref.SelfTest(); err != nil {
		fmt.Fprintln(os.Stderr, "reference self-test:", err)
		os.Exit(3)
	}
	if *quiet {
		// Verify prints the reason of some refusals
		null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
		if err == nil {
			os.Stdout = null
		}
	}
	rep := runProp(p, &Tier{*thorough}, *seed, *fam, *idx)
	if *out != "" {
		writeReport(*out, rep)
	}
	for _, v := range rep.Violations {
		fmt.Fprintf(os.Stderr, "violation %s/%d %s: %s\n", v.Family, v.Index, v.Key, v.Msg)
	}
	fmt.Fprintf(os.Stderr, "%s: %d evaluations, %d distinct, %d violations, %.1f s\n", rep.Property, rep.Evals, rep.Distinct, len(rep.Violations), rep.Wall)
	if len(rep.Violations) > 0 {
		os.Exit(1)
	}
}
