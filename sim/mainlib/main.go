// Command mainlib is the simulator of programs that use the library.
package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"time"

	"github.com/teamlint/baron/zz_reg"
	"github.com/teamlint/baron/zz_sim/cli"
	"github.com/teamlint/baron/zz_sim/drive"
	"github.com/teamlint/baron/zz_sim/k"
	"github.com/teamlint/baron/zz_sim/lib"
	sos "github.com/teamlint/baron/zz_sim/os"
)

func exps() map[string]*drive.Exp {
	m := map[string]*drive.Exp{}
	for _, e := range lib.Exps() {
		m[e.ID] = e
	}
	return m
}

func setup(repo, scratch string) {
	start := func() { reg.Start(map[string]string{"version": "v1.2.3", "date": "20200101"}) }
	for _, g := range reg.Globals {
		k.Register(g, start)
	}
	k.Register(sos.SimGlobals(), start)
	cli.Main = reg.Main
	cli.RepoDir = repo
	cli.ScratchDir = scratch
}

// usage: main drive ID VERIF REPO WORK | main work ID VERIF W N BASE FROM TIER DEADLINE CASEFILE REPO WORK | main replay ID FILE REPO WORK
func main() {
	if len(os.Args) < 4 {
		fmt.Fprintln(os.Stderr, "usage")
		os.Exit(2)
	}
	repo, work := os.Args[len(os.Args)-2], os.Args[len(os.Args)-1]
	setup(repo, work)
	e := exps()[os.Args[2]]
	if e == nil {
		fmt.Fprintln(os.Stderr, "no experiment "+os.Args[2])
		os.Exit(2)
	}
	atoi := func(s string) int {
		n, err := strconv.Atoi(s)
		if err != nil {
			panic(err)
		}
		return n
	}
	switch os.Args[1] {
	case "drive":
		self, err := filepath.Abs(os.Args[0])
		if err != nil {
			panic(err)
		}
		os.Exit(drive.Drive(e, os.Args[3], self, []string{repo, work}, work))
	case "work":
		a := os.Args
		drive.Work(e, a[3], atoi(a[4]), atoi(a[5]), atoi(a[6]), atoi(a[7]), a[8], time.Unix(int64(atoi(a[9])), 0), a[10])
	case "replay":
		os.Exit(drive.ReplayFile(e, os.Args[3]))
	}
}
