package engine

import (
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

// SoloRunner is a property that can run one call of a plan alone.
type SoloRunner interface {
	Solo(e *Env) string
}

// Focuser is a property whose plans take a profile of the tree into account.
// Focus runs in a process of its own; what it returns is handed to every
// worker in the environment variable SIM_FOCUS.
type Focuser interface {
	Focus() string
}

func (d *Driver) focus() string {
	if _, ok := d.Pr.(Focuser); !ok || len(d.Configs) == 0 {
		return ""
	}
	cmd := exec.Command(d.Configs[0].Bin, "focus", d.Pr.ID())
	var so strings.Builder
	cmd.Stdout = &so
	if cmd.Start() != nil {
		return ""
	}
	t := time.AfterFunc(60*time.Second, func() { cmd.Process.Kill() })
	err := cmd.Wait()
	t.Stop()
	if err != nil {
		return ""
	}
	return so.String()
}

// FreshSolo runs the only operation of p in a fresh process of the
// uninstrumented build and returns what it reports.
func FreshSolo(p *Plan, timeout time.Duration) (string, error) {
	self, err := os.Executable()
	if err != nil {
		return "", err
	}
	bin := filepath.Join(filepath.Dir(self), "sim-plain")
	if _, err := os.Stat(bin); err != nil {
		bin = self
	}
	b, err := json.Marshal(p)
	if err != nil {
		return "", err
	}
	cmd := exec.Command(bin, "solo")
	cmd.Stdin = strings.NewReader(string(b))
	var so, se strings.Builder
	cmd.Stdout = &so
	cmd.Stderr = &limitedWriter{b: &se, n: 4000}
	if err := cmd.Start(); err != nil {
		return "", err
	}
	t := time.AfterFunc(timeout, func() { cmd.Process.Kill() })
	err = cmd.Wait()
	t.Stop()
	if err != nil {
		if strings.Contains(se.String(), "fatal error") {
			return "process-crash " + firstLine(se.String()), nil
		}
		return "", fmt.Errorf("solo run failed: %v: %s", err, firstLine(se.String()))
	}
	return so.String(), nil
}
