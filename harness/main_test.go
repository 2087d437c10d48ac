package vh

import (
	"os"
	"testing"
)

func TestMain(m *testing.M) { os.Exit(RunMain(m)) }
