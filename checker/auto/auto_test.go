package auto

import (
	"regexp"
	"testing"
)

func TestAuto(t *testing.T) {
	res := []string{`^[-+]?[0-9]+$`, `a|bc*`, `^(?:a|b)+c?$`, ``, `^$`, `(?i)^null$`, `^\.(?:inf|Inf)$`, `x$`, `^y`}
	words := []string{"", "1", "-1", "+", "a", "bc", "bcc", "abab", "ababc", "null", "NuLL", ".inf", ".Inf", "x", "yx", "y", "é", "1\n"}
	for _, re := range res {
		l := Must(re)
		g := regexp.MustCompile(re)
		for _, w := range words {
			if l.Has(w) != g.MatchString(w) || l.Not().Has(w) == g.MatchString(w) {
				t.Errorf("%q %q", re, w)
			}
			if l.And(Prefix("a")).Has(w) != (g.MatchString(w) && len(w) > 0 && w[0] == 'a') {
				t.Errorf("prefix %q %q", re, w)
			}
			if At(1, 'b', 'c').Has(w) != (len(w) > 1 && (w[1] == 'b' || w[1] == 'c')) {
				t.Errorf("at %q", w)
			}
		}
	}
	if f, ok := Words("a", "bb").Finite(3); !ok || len(f) != 2 {
		t.Error(f, ok)
	}
	if _, _, d := Must(`^(a|b)*$`).Diff(Must(`^[ab]*$`)); d {
		t.Error("diff")
	}
	if !Suffix("b").Has("ab") || Suffix("b").Has("ba") || !Length(1, 2).Has("ab") || Length(1, 2).Has("abc") || !Length(2, -1).Has("abcd") || Length(2, -1).Has("a") {
		t.Error("len")
	}
}
