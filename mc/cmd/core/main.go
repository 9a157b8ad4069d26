//go:build go1.23

// Command core runs the checks of the codec, the Go mapping and the IDL parser.
package main

import (
	"os"
	"sort"

	"github.com/itstarsun/go-thrift/internal/zzverif/engine"
)

var props []*engine.Prop

func register(p *engine.Prop) { props = append(props, p) }

// more holds spaces defined apart from their properties.
var more = map[string][]func(thorough bool) []engine.Space{}

func extend(id string, f func(thorough bool) []engine.Space) { more[id] = append(more[id], f) }

func main() {
	if len(os.Args) > 2 && os.Args[1] == "first-use" {
		firstUseMain(os.Args[2:])
		return
	}
	sort.Slice(props, func(i, j int) bool { return props[i].ID < props[j].ID })
	for _, p := range props {
		if fs, base := more[p.ID], p.Spaces; len(fs) > 0 {
			p.Spaces = func(thorough bool) []engine.Space {
				sps := base(thorough)
				for _, f := range fs {
					sps = append(sps, f(thorough)...)
				}
				return sps
			}
		}
	}
	engine.Main(props)
}
