// Package rules holds one analysis per property.
package rules

import (
	"sort"

	"verif/checker/core"
)

type Rule struct {
	Run     func(*core.Ctx)
	Explain string
	Level   string
	Assume  []string
}

var Registry = map[string]*Rule{}

func register(id string, r *Rule) {
	if r.Level == "" {
		r.Level = "other"
	}
	Registry[id] = r
}

func IDs() []string {
	var l []string
	for k := range Registry {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}
