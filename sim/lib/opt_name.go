//go:build opt_name

package lib

import "github.com/teamlint/baron/internal/parsesvcname"

func init() { FromReaders = parsesvcname.FromReaders }
