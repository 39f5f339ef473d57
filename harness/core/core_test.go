// Package core runs the monitors that need the whole server in one process.
package core

import (
	"testing"

	"github.com/hyperonym/ratus/verif/h"
)

// TestCheck runs the check named by the environment.
func TestCheck(t *testing.T) { h.RunChecks(t) }
