package main

import (
	"os"
	"strings"

	"aaverif/proto"
)

type scenarioAlias = proto.Scenario
type evAlias = proto.Ev

// known_findings.txt has one entry per line:
//
//	fixed: property=<id> <commit> <what failed>       (suppresses nothing)
//	known: property=<id> match=[<text>] <what fails>  (suppresses exactly the
//	       violations of that property whose description contains the text)
type finding struct {
	Property, Match, What string
}

type findingList []finding

func loadKnown(path string) (l findingList) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, line := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(line, "known: property=")
		if !ok {
			continue
		}
		id, rest, ok1 := strings.Cut(rest, " match=[")
		match, what, ok2 := strings.Cut(rest, "] ")
		if ok1 && ok2 && match != "" {
			l = append(l, finding{id, match, what})
		}
	}
	return l
}

func (l findingList) match(v Violation) string {
	for _, f := range l {
		if f.Property == v.Property && strings.Contains(v.What, f.Match) {
			return f.What
		}
	}
	return ""
}
