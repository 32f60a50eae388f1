// Runs one of the command-line tools of /repo on the cases of cases.json in scratch directories and
// compares exit code, standard output and resulting files with what is written there.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
)

type outcome struct {
	RC     int
	Stdout string
	Files  map[string]string
}

type kase struct {
	Tool  string
	Args  []string
	Stdin string
	Files map[string]string
	Want  *outcome
}

func main() {
	path := os.Args[1]
	data, err := os.ReadFile(path)
	check(err)
	var cases []*kase
	check(json.Unmarshal(data, &cases))
	tmp, err := os.MkdirTemp("", "demo")
	check(err)
	defer os.RemoveAll(tmp)
	built := map[string]bool{}
	bad := false
	for i, c := range cases {
		bin := filepath.Join(tmp, "bin-"+c.Tool)
		if !built[c.Tool] {
			out, err := exec.Command("go", "build", "-o", bin, "./"+c.Tool).CombinedOutput()
			if err != nil {
				fmt.Println(string(out))
				os.RemoveAll(tmp)
				os.Exit(2)
			}
			built[c.Tool] = true
		}
		dir := filepath.Join(tmp, fmt.Sprint("ws", i))
		for name, text := range c.Files {
			p := filepath.Join(dir, name)
			check(os.MkdirAll(filepath.Dir(p), 0o777))
			check(os.WriteFile(p, []byte(text), 0o666))
		}
		cmd := exec.Command(bin, c.Args...)
		cmd.Dir = dir
		cmd.Stdin = strings.NewReader(c.Stdin)
		var stdout, stderr bytes.Buffer
		cmd.Stdout, cmd.Stderr = &stdout, &stderr
		cmd.Run()
		got := &outcome{RC: cmd.ProcessState.ExitCode(), Stdout: strings.ReplaceAll(stdout.String(), dir, "DIR"), Files: map[string]string{}}
		filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
			if err == nil && info.Mode().IsRegular() {
				b, _ := os.ReadFile(p)
				rel, _ := filepath.Rel(dir, p)
				got.Files[rel] = string(b)
			}
			return nil
		})
		if len(os.Args) > 2 && os.Args[2] == "record" {
			c.Want = got
			fmt.Printf("case %d: rc %d\n%s%s\n", i, got.RC, got.Stdout, stderr.String())
			for n, t := range got.Files {
				fmt.Printf("-- %s --\n%s", n, t)
			}
			continue
		}
		if !reflect.DeepEqual(got, c.Want) {
			bad = true
			fmt.Printf("case %d %v differs:\ngot  rc %d %q %q\nwant rc %d %q %q\n", i, c.Args, got.RC, got.Stdout, got.Files, c.Want.RC, c.Want.Stdout, c.Want.Files)
		}
	}
	if len(os.Args) > 2 && os.Args[2] == "record" {
		out, _ := json.MarshalIndent(cases, "", " ")
		check(os.WriteFile(path, out, 0o666))
	}
	if bad {
		os.RemoveAll(tmp)
		os.Exit(1)
	}
}

func check(err error) {
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
}
