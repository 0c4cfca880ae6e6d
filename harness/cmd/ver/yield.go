//go:build yield

package main

import (
	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/versioning"
	"verifharness/core"
)

func init() {
	extensions.VerifYield = core.Yield
	versioning.VerifYield = core.Yield
}
