//go:build go1.23

// Command sched runs the check of concurrent use, with the code under test
// instrumented by cmd/instr and watched by the race detector.
package main

import (
	"os"

	"github.com/itstarsun/go-thrift/internal/zzverif/engine"
)

func main() {
	if len(os.Args) == 3 && os.Args[1] == "fresh" {
		runFresh(os.Args[2])
		return
	}
	engine.Main([]*engine.Prop{{ID: "C18", Level: "model_checking",
		Rule: "an execution runs two or three threads under one schedule; with more than one preemption possible at the points of the schedule",
		Assumptions: []string{
			"preemption happens at statements and at operations of package sync; the race detector covers what happens within statements",
			"the value given to concurrent Marshal calls is not changed meanwhile",
		},
		Parts: func(thorough bool) int {
			if thorough {
				return 241
			}
			return 41
		},
		Spaces: spaces}})
}
