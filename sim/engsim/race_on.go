//go:build go1.23 && race

package engsim

import (
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"unsafe"
)

// RaceBuild tells that memory accesses are followed: two callers that access
// the same memory, one of them to write it, without a lock or the like between
// them, are reported.  The switches of the simulated callers do not count.
const RaceBuild = true

var raceCell, raceSeen int
var raceRead int64

func raceSwitchBegin() { runtime.RaceDisable() }
func raceSwitchEnd()   { runtime.RaceEnable() }
func raceRelease()     { runtime.RaceReleaseMerge(unsafe.Pointer(&raceCell)) }
func raceAcquire()     { runtime.RaceAcquire(unsafe.Pointer(&raceCell)) }

// races returns the new reports of accesses of the code under test.
func races() []string {
	n := runtime.RaceErrors()
	if n == raceSeen {
		return nil
	}
	raceSeen = n
	prefix := ""
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if strings.HasPrefix(f, "log_path=") {
			prefix = strings.TrimPrefix(f, "log_path=")
		}
	}
	if prefix == "" {
		return nil
	}
	names, _ := filepath.Glob(prefix + ".*")
	out := []string{}
	for _, name := range names {
		if !strings.HasSuffix(name, "."+itoa(os.Getpid())) {
			continue
		}
		f, err := os.Open(name)
		if err != nil {
			continue
		}
		st, _ := f.Stat()
		b := make([]byte, st.Size()-raceRead)
		k, _ := f.ReadAt(b, raceRead)
		f.Close()
		raceRead += int64(k)
		for _, report := range strings.Split(string(b[:k]), "==================") {
			if s := readReport(report); s != "" {
				out = append(out, s)
			}
		}
	}
	return out
}

func itoa(n int) string {
	if n < 10 {
		return string(rune('0' + n))
	}
	return itoa(n/10) + string(rune('0'+n%10))
}

const module = "github.com/steve-care-software/rodkina/"

// readReport returns what a report says if both accesses are made by the code
// under test, and nothing if the simulator takes part.
func readReport(report string) string {
	if !strings.Contains(report, "WARNING: DATA RACE") {
		return ""
	}
	parts := []string{}
	for _, section := range strings.Split(report, "\n\n") {
		lines := strings.Split(strings.Trim(section, "\n"), "\n")
		for len(lines) > 0 && !strings.Contains(lines[0], " at 0x") {
			lines = lines[1:]
		}
		if len(lines) == 0 {
			continue
		}
		what := strings.TrimSpace(lines[0])
		what = what[:strings.Index(what, " at 0x")]
		where := ""
		for i := 1; i+1 < len(lines); i += 2 {
			fn := strings.TrimSpace(lines[i])
			if !strings.HasPrefix(fn, module) {
				continue
			}
			if strings.HasPrefix(fn, module+"zz_verif/") {
				return ""
			}
			at := strings.Fields(lines[i+1])[0]
			where = strings.TrimPrefix(fn, module) + " (" + filepath.Base(at) + ")"
			break
		}
		if where == "" {
			return ""
		}
		parts = append(parts, strings.ToLower(what)+" in "+where)
	}
	if len(parts) != 2 {
		return ""
	}
	return parts[0] + ", " + parts[1]
}
