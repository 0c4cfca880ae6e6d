//go:build yield

package main

import (
	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"verifharness/core"
)

func init() { extensions.VerifYield = core.Yield }
