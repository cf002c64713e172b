//go:build opt_write

package lib

import "github.com/teamlint/baron/gengokit/generator"

func init() { WriteGenFile = generator.WriteGenFile }
