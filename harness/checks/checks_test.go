package checks

import (
	"testing"

	"verif.local/h/lib"
)

var all = map[string]func(*lib.R){}

func TestCheck(t *testing.T) { lib.Main(t, all) }
