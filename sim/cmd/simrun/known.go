package main

import (
	"fmt"
	"os"
	"regexp"
	"strings"

	"verifsim/sc"
)

// The known-findings file has one entry per line:
//
//	known: property=<id> key="<violation key>" message=/<regexp>/ <what fails>
//	fixed: property=<id> <commit> <what failed>
//
// Only known entries suppress anything, and only violations with that very key
// and message.
type finding struct {
	prop, key, text string
	re              *regexp.Regexp
}

type knownList []finding

var knownLine = regexp.MustCompile(`^known: property=(\S+) key="([^"]*)" message=/(.*)/ (.*)$`)

func loadKnown(file string) knownList {
	var out knownList
	if file == "" {
		return nil
	}
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, "simrun:", err)
		os.Exit(2)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		m := knownLine.FindStringSubmatch(l)
		if m == nil {
			fmt.Fprintln(os.Stderr, "simrun: bad line in known findings:", l)
			os.Exit(2)
		}
		out = append(out, finding{m[1], m[2], m[4], regexp.MustCompile(m[3])})
	}
	return out
}

func (k knownList) match(v *sc.Violation) string {
	for _, f := range k {
		if f.prop == v.Prop && f.key == v.Key && f.re.MatchString(v.Msg) {
			return f.text
		}
	}
	return ""
}
