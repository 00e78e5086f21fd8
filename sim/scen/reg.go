// Package scen holds the simulated scenarios: workloads, fault plans and the
// oracles that decide the properties.
package scen

import (
	"sort"
	"strings"

	"vsim/vsim"
)

// Scenario is one family of simulated executions of a property.
type Scenario struct {
	Name string
	W    int // weight
	Run  func()
}

// Prop is a property with the scenarios that decide it.
type Prop struct {
	ID    string
	Title string
	Scens []Scenario
	Real  []string // components that run real code
	Stub  []string // components replaced by a stub or model
	Rule  string
}

func sortStrings(l []string) { sort.Strings(l) }

var Props = map[string]*Prop{}

func reg(p *Prop) { Props[p.ID] = p }

// IDs lists the registered properties.
func IDs() []string {
	var l []string
	for k := range Props {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// Cur is the property the current run decides.
var Cur string

// fail records a violation of the named property; it counts only when that
// property is being decided.
func fail(prop, class, f string, a ...any) {
	if prop != Cur {
		return
	}
	vsim.Fail(prop+":"+class, f, a...)
}

// Relevant reports whether a violation class counts for the property.
func Relevant(prop, class string) bool {
	if i := strings.Index(class, ":"); i > 0 {
		return class[:i] == prop
	}
	return true
}

// RunOne executes one simulated run of a property.
func RunOne(prop string, cfg vsim.Config) (*vsim.Sim, string) {
	p := Props[prop]
	Cur = prop
	s := vsim.New(cfg)
	name := ""
	s.Run(func() {
		w := make([]int, len(p.Scens))
		for i, x := range p.Scens {
			w[i] = x.W
		}
		k := vsim.Weighted(vsim.StWork, w...)
		name = p.Scens[k].Name
		vsim.Log("scenario %s/%s", prop, name)
		p.Scens[k].Run()
	})
	return s, name
}
