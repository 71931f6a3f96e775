package run

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
)

// UCD runs the conformance harness natively on the UCD break tests that the
// repository carries. The code passes those tests, so agreement means that the
// reference rules do, too. (Development aid: no check depends on it.)
func UCD(c Config) int {
	tmp, err := os.MkdirTemp("", "vf-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(tmp)
	bin := filepath.Join(tmp, "native")
	if err := BuildNative(c, bin, false); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	re := regexp.MustCompile(`input:\s+\[\]byte\{([^}]*)\}`)
	rc := 0
	for k, name := range kindName[:3] {
		b, err := os.ReadFile(filepath.Join(c.Repo, name, "unicode_test.go"))
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		var jobs []Job
		for _, m := range re.FindAllStringSubmatch(string(b), -1) {
			var in []byte
			for _, x := range strings.Split(m[1], ",") {
				n, _ := strconv.ParseUint(strings.TrimSpace(x), 0, 8)
				in = append(in, byte(n))
			}
			jobs = append(jobs, Job{Harness: "Conform", Args: []int{k, len(in)}, Bytes: map[string][]byte{"t": in}})
		}
		rs, err := RunNative(c, bin, jobs)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		ok := 0
		for i, r := range rs {
			if r.Status == "ok" {
				ok++
			} else {
				rc = 1
				fmt.Println(name, describe(jobs[i]), r.Status, r.Msg)
			}
		}
		fmt.Println(name, ok, "of", len(jobs), "agree")
	}
	return rc
}
