// Package checks holds one check per property.
package checks

import "verif/harness/rep"

// All maps property ids to checks.
var All = map[string]func(r *rep.R){}
