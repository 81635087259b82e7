package rx

import (
	"os"
	"path/filepath"
	"testing"

	"github.com/ftl/hamradio/callsign"
	"github.com/ftl/hamradio/dxcc"
	"github.com/ftl/hamradio/scp"
)

func TestDVC16_Collect(t *testing.T) { dvCollect(t, 2000) }

// every stage of loading the databases may fail
func TestDVC16_Setup(t *testing.T) {
	home := t.TempDir()
	for _, stage := range []string{"no file name", "no file", "broken file", "file"} {
		t.Setenv("HOME", home)
		if stage == "no file name" {
			t.Setenv("HOME", "")
		}
		for _, f := range []func() (string, error){dxcc.LocalFilename, scp.LocalFilename} {
			name, err := f()
			if err != nil || stage == "no file name" {
				continue
			}
			if rel, err := filepath.Rel(home, name); err != nil || rel[0] == '.' && rel[1] == '.' {
				t.Skip("the databases are not in the home directory")
			}
			os.MkdirAll(filepath.Dir(name), 0o755)
			os.RemoveAll(name)
			switch stage {
			case "broken file":
				os.MkdirAll(name, 0o755)
			case "file":
				text := "Fed. Rep. of Germany: 14: 28: EU: 51.00: -10.00: -1.0: DL:\n    DA,DL;\n"
				if filepath.Base(name) == filepath.Base(dvSCPName()) {
					text = "DL1ABC\nDL1ABD\n"
				}
				os.WriteFile(name, []byte(text), 0o644)
			}
		}
		p := NewTextProcessor(nil, &dvClock{}, &dvReports{})
		known, unknown := callsign.MustParse("dl1abc"), callsign.MustParse("w1aw")
		if stage == "file" {
			if p.dxccFinder == nil || p.scpFinder == nil {
				t.Fatalf("the databases in %s are not used: %v, %v", home, p.dxccFinder, p.scpFinder)
			}
			if !p.isValidDXCC(known) || p.isValidDXCC(unknown) || p.callsignWeight(known) != 1 || p.callsignWeight(unknown) != 0 {
				t.Fatalf("databases in %s: %v is valid: %v, weight %d, %v is valid: %v, weight %d", home, known, p.isValidDXCC(known), p.callsignWeight(known), unknown, p.isValidDXCC(unknown), p.callsignWeight(unknown))
			}
			continue
		}
		for _, c := range []callsign.Callsign{known, unknown} {
			if !p.isValidDXCC(c) || p.callsignWeight(c) != 0 {
				t.Fatalf("%s: %v is valid: %v, weight %d", stage, c, p.isValidDXCC(c), p.callsignWeight(c))
			}
		}
		p.collectCallsign("dl1abc")
	}
}

func dvSCPName() string {
	name, _ := scp.LocalFilename()
	return name
}
