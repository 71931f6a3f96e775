package main

import (
	"os"

	"verif/run"
)

func ssaDump(name string) {
	p, err := run.Load(run.Config{Repo: "/repo", Verif: "/verif"})
	die(err)
	p.VH.Func(name).WriteTo(os.Stdout)
}
