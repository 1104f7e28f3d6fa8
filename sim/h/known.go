package h

import (
	"encoding/json"
	"fmt"
	"os"
	"regexp"
)

// Known is a defect of the code under test that is recorded rather than
// repaired; violations that are exactly this one are reported separately.
type Known struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Status   string `json:"status"` // known, or fixed (suppresses nothing)
	Rule     string `json:"rule,omitempty"`
	Match    string `json:"match,omitempty"` // the whole message of the violation
	re       *regexp.Regexp
}

var knownList []*Known

// LoadKnown reads the file of known findings.
func LoadKnown(file string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	var f struct{ Findings []*Known }
	if err := json.Unmarshal(b, &f); err != nil {
		return fmt.Errorf("%s: %v", file, err)
	}
	for _, k := range f.Findings {
		if k.Status != "known" {
			continue
		}
		if k.re, err = regexp.Compile("^(?:" + k.Match + ")$"); err != nil {
			return err
		}
		knownList = append(knownList, k)
	}
	return nil
}

func (x *X) filterKnown() {
	if len(knownList) == 0 {
		return
	}
	var vs []Viol
next:
	for _, v := range x.Res.Viols {
		for _, k := range knownList {
			if k.Property == x.Sc.Check && k.Rule == v.Rule && k.re.MatchString(v.Msg) {
				x.Res.Known = append(x.Res.Known, k.ID)
				continue next
			}
		}
		vs = append(vs, v)
	}
	x.Res.Viols = vs
}
